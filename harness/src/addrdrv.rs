//! Recognition of images, and where each sector lies in them.
use crate::common::*;
use cbm::disk::{Disk, D64, D71, D81};
use std::fs;
use std::io;
use std::path::{Path, PathBuf};

fn kind_of(d: &dyn Disk) -> &'static str {
    match d.native_disk_format().last_track {
        35 => "d64",
        70 => "d71",
        80 => "d81",
        _ => "?",
    }
}
fn tracks_of(d: &dyn Disk) -> i64 {
    (1..=255).take_while(|t| d.read_sector(loc!(d, *t, 0)).is_ok()).count() as i64
}
fn err_of(d: &dyn Disk) -> (i64, Vec<u8>) {
    let b = d.blocks_ref();
    let r = match b.error_table() {
        Ok(Some(t)) => (t.len() as i64, t.to_vec()),
        Ok(None) => (0, vec![]),
        Err(_) => (-1, vec![]),
    };
    r
}
fn create(k: Kind, trk: usize, err: bool, p: &Path, new: bool) -> io::Result<Box<dyn Disk>> {
    Ok(match k {
        Kind::D64 if trk == 40 => Box::new(D64::create(p, D64::geometry_40_tracks(err), new)?),
        Kind::D64 => Box::new(D64::create(p, D64::geometry(err), new)?),
        Kind::D71 => Box::new(D71::create(p, D71::geometry(err), new)?),
        Kind::D81 => Box::new(D81::create(p, D81::geometry(err), new)?),
    })
}
fn open_via(via: &str, p: &Path, w: bool) -> io::Result<Box<dyn Disk>> {
    Ok(match via {
        "d64" => Box::new(D64::open(p, w)?),
        "d71" => Box::new(D71::open(p, w)?),
        "d81" => Box::new(D81::open(p, w)?),
        _ => cbm::disk::open(p, w)?,
    })
}
pub const GEOMS: [(Kind, usize, bool); 8] = [
    (Kind::D64, 35, false),
    (Kind::D64, 35, true),
    (Kind::D64, 40, false),
    (Kind::D64, 40, true),
    (Kind::D71, 70, false),
    (Kind::D71, 70, true),
    (Kind::D81, 80, false),
    (Kind::D81, 80, true),
];

fn open_event(dir: &Path, stem: &str, ext: &str, size: usize, via: &str, w: bool) {
    let p = dir.join(if ext.is_empty() { stem.to_string() } else { format!("{}.{}", stem, ext) });
    fs::File::create(&p).and_then(|f| f.set_len(size as u64)).expect("image file");
    let mut j = J::new("open");
    j.s("ext", ext).i("size", size as i64).s("via", via).b("w", w);
    let r = call("open", || open_via(via, &p, w));
    match r {
        Ok(d) => {
            j.s("res", "ok").s("k", kind_of(d.as_ref())).i("trk", tracks_of(d.as_ref())).i("et", err_of(d.as_ref()).0);
        }
        Err(e) => {
            j.s("res", &e);
        }
    }
    j.i("after", fs::metadata(&p).map(|m| m.len() as i64).unwrap_or(-1));
    let _ = fs::remove_file(&p);
    emit(j.end());
}

fn opens(dir: &Path, rng: &mut Rng) {
    let exts = ["d64", "D64", "d71", "D71", "d81", "D81", "", "img", "d65", "d6", "d640", "d82"];
    let mut sizes: Vec<usize> = GEOMS.iter().map(|(k, t, e)| image_size(*k, *t, *e)).collect();
    let std = sizes.clone();
    for s in &std {
        sizes.extend_from_slice(&[s - 1, s + 1, s - 256, s + 256]);
    }
    // neighbours of the standard sizes: other track numbers, error table of another geometry
    for t in [34, 36, 39, 41, 42] {
        sizes.push((1..=t).map(|x: usize| Kind::D64.spt(x.min(35))).sum::<usize>() * 256);
    }
    sizes.extend_from_slice(&[1, 255, 256, 65536, 174848 + 768, 196608 + 683, 349696 + 683, 819200 + 1366, 2 * 819200]);
    for ext in exts {
        for s in &sizes {
            open_event(dir, "image", ext, *s, "any", rng.chance(1, 2));
        }
    }
    for via in ["d64", "d71", "d81"] {
        for s in &std {
            let e = *rng.pick(&exts);
            open_event(dir, "x.d64", e, *s, via, rng.chance(1, 2));
        }
    }
    for (stem, ext) in [("x.d64", "d81"), ("x.d81", "bak"), (".d71", ""), ("d64", ""), ("d81.d71", "d64")] {
        for s in &std {
            open_event(dir, stem, ext, *s, "any", false);
        }
    }
    for _ in 0..40 {
        let e = *rng.pick(&exts);
        open_event(dir, "image", e, 1 + rng.below(900_000), "any", rng.chance(1, 2));
    }
}

fn creates(dir: &Path, rng: &mut Rng) {
    for (k, trk, err) in GEOMS {
        for existing in [-1i64, 0, 100, image_size(k, trk, err) as i64, 900_000] {
            for new in [false, true] {
                let p = dir.join("made.d00");
                let _ = fs::remove_file(&p);
                let before = if existing >= 0 { rng.bytes(existing as usize) } else { vec![] };
                if existing >= 0 {
                    fs::write(&p, &before).expect("existing file");
                }
                let r = call("create", || create(k, trk, err, &p, new));
                let mut j = J::new("create");
                j.s("k", k.name()).i("trk", trk as i64).b("err", err).b("new", new).i("had", existing);
                let now = fs::read(&p).unwrap_or_default();
                match r {
                    Ok(d) => {
                        j.s("res", "ok").i("otrk", tracks_of(d.as_ref())).i("et", err_of(d.as_ref()).0).b("fmt", d.header().is_ok());
                    }
                    Err(e) => {
                        j.s("res", &e);
                    }
                }
                j.i("size", now.len() as i64).b("zero", now.iter().all(|b| *b == 0)).b("kept", now == before);
                let _ = fs::remove_file(&p);
                emit(j.end());
            }
        }
    }
}

/// each 256-byte piece different from all others, in every byte from its neighbours
fn pattern(n: usize, salt: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let (b, o) = (i / 256, i % 256);
        v.push(match o {
            0 => (b % 256) as u8,
            1 => (b / 256) as u8,
            _ => (o as u8).wrapping_mul(7).wrapping_add((b * 13) as u8) ^ salt,
        });
    }
    v
}

fn map(dir: &Path, g: (Kind, usize, bool), writable: bool) -> Option<()> {
    let (k, trk, err) = g;
    let img = pattern(image_size(k, trk, err), 0x5a);
    let p = dir.join(format!("map.{}", k.name()));
    fs::write(&p, &img).expect("image");
    let d = call("open", || open_path(&p, writable)).ok();
    let mut j = J::new("map");
    j.s("k", k.name()).i("trk", trk as i64).b("err", err);
    if let Some(d) = d.as_ref() {
        let mut hits = vec![];
        let (mut refused, mut other) = (0i64, 0i64);
        for t in 0..=255usize {
            for s in 0..=255usize {
                match call("read_sector", || d.read_sector(loc!(d, t, s))) {
                    Ok(b) if b.len() == 256 => {
                        let i = (b[0] as usize + 256 * b[1] as usize) * 256;
                        let pos = if i + 256 <= img.len() && img[i..i + 256] == b[..] { i as i64 } else { -1 };
                        hits.push(format!("[{},{}]", l2i(t as u8, s as u8), pos));
                    }
                    Ok(_) => other += 1,
                    Err(e) if e == "InvalidLocation" => refused += 1,
                    Err(_) => other += 1,
                }
            }
        }
        let et = err_of(d.as_ref()).1;
        j.s("res", "ok").raw("hits", &jlist(&hits)).i("refused", refused).i("other", other);
        j.b("etok", et[..] == img[nsectors(k, trk) * 256..]);
    } else {
        j.s("res", "failed");
    }
    j.b("same", fs::read(&p).map(|b| b == img).unwrap_or(false));
    emit(j.end());
    let _ = fs::remove_file(&p);
    Some(())
}

/// write every sector once, in random order, and look at the whole image file each time
fn writes(dir: &Path, g: (Kind, usize, bool), rng: &mut Rng, limit: usize) {
    let (k, trk, err) = g;
    let mut img = pattern(image_size(k, trk, err), 0x21);
    let p = dir.join(format!("wr.{}", k.name()));
    fs::write(&p, &img).expect("image");
    let mut d = match call("open", || open_path(&p, true)) {
        Ok(d) => d,
        Err(_) => return,
    };
    let mut locs: Vec<(usize, usize)> = all_locs(k, trk);
    // addresses just outside the disk, and others
    for t in 0..=trk + 2 {
        let n = if t >= 1 && t <= trk { k.spt(t) } else { 0 };
        for s in [n, n + 1, 40, 41, 255] {
            if s >= n {
                locs.push((t, s));
            }
        }
    }
    for _ in 0..200 {
        locs.push((rng.below(256), rng.below(256)));
    }
    for i in (1..locs.len()).rev() {
        let j = rng.below(i + 1);
        locs.swap(i, j);
    }
    locs.truncate(limit);
    for (t, s) in locs {
        let n = if rng.chance(1, 6) { *rng.pick(&[0usize, 1, 128, 255, 257, 512]) } else { 256 };
        let valid = t >= 1 && t <= trk && s < k.spt(t);
        let data: Vec<u8> = if valid && n == 256 {
            let b = call("read_sector", || d.read_sector(loc!(d, t, s))).unwrap_or(vec![0; 256]);
            b.iter().map(|x| !x).collect()
        } else {
            rng.bytes(n)
        };
        let r = call("write_sector", || d.write_sector(loc!(d, t, s), &data));
        let back = call("read_sector", || d.read_sector(loc!(d, t, s)));
        let now = fs::read(&p).unwrap_or_default();
        let mut j = J::new("write");
        j.s("k", k.name()).i("trk", trk as i64).b("err", err).i("t", t as i64).i("s", s as i64).i("n", n as i64);
        j.s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
        let lo = img.iter().zip(now.iter()).position(|(a, b)| a != b);
        let hi = img.iter().zip(now.iter()).rposition(|(a, b)| a != b);
        match (lo, hi) {
            (Some(l), Some(h)) => j.i("lo", l as i64).i("hi", h as i64).b("eq", now[l..=h] == data[..]),
            _ => j.i("lo", -1).i("hi", -1).b("eq", false),
        };
        j.b("len", now.len() == img.len()).b("back", back.map(|b| b == data).unwrap_or(false));
        emit(j.end());
        img = now;
    }
    let _ = fs::remove_file(&p);
}

/// memory-backed images: what is written at an address is read there, and only there
fn memory(g: (Kind, usize, bool), rng: &mut Rng) {
    let (k, trk, err) = g;
    let mut j = J::new("mem");
    j.s("k", k.name()).i("trk", trk as i64).b("err", err);
    let salt = rng.next() as u8;
    let r = call("mem", || {
        let mut d = mem_disk(k, trk, err)?;
        let mut acc = vec![];
        let content = |t: usize, s: usize| -> Vec<u8> { (0..256).map(|o| if o == 0 { t as u8 } else if o == 1 { s as u8 } else { (o as u8) ^ salt }).collect() };
        for t in 0..=255usize {
            for s in 0..=255usize {
                if d.write_sector(loc!(d, t, s), &content(t, s)).is_ok() {
                    acc.push((t, s));
                }
            }
        }
        let wrong = acc.iter().filter(|(t, s)| d.read_sector(loc!(d, *t, *s)).map(|b| b != content(*t, *s)).unwrap_or(true)).count();
        Ok((acc, wrong))
    });
    match r {
        Ok((acc, wrong)) => {
            j.s("res", "ok").raw("acc", &jints(&acc.iter().map(|(t, s)| l2i(*t as u8, *s as u8)).collect::<Vec<_>>())).i("wrong", wrong as i64)
        }
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}

/// addr SEED EVENTS
pub fn run(seed: u64, events: usize) {
    let mut rng = Rng::new(seed);
    let dir: PathBuf = scratch_root().join(format!("addr{}", std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    opens(&dir, &mut rng);
    creates(&dir, &mut rng);
    for g in GEOMS {
        map(&dir, g, rng.chance(1, 2));
        memory(g, &mut rng);
    }
    let lines = || OUT.lock().unwrap().as_ref().map(|o| o.lines).unwrap_or(0);
    let each = events.saturating_sub(lines()) / GEOMS.len();
    for g in GEOMS {
        writes(&dir, g, &mut rng, each);
    }
    let _ = fs::remove_dir_all(&dir);
}
