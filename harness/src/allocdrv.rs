//! Block selection on arbitrary free-block maps.
use crate::common::*;
use cbm::disk::{Disk, Id};
use cbm::Petscii;
use std::collections::BTreeSet;

fn make(k: Kind, geos: bool, rng: &mut Rng) -> Box<dyn Disk> {
    let trk = if k == Kind::D64 { *rng.pick(&[35, 35, 40]) } else { k.last() };
    let mut d = mem_disk(k, trk, false).expect("disk");
    // the choice of blocks may not depend on the disk's name and id
    let n = *rng.pick(&[0, 1, 5, 15, 16]);
    let nm = rng.bytes(n);
    let mut id = rng.bytes(2);
    for x in id.iter_mut() {
        if rng.chance(1, 2) {
            *x = *rng.pick(&[0, 0xA0, 0x20, 0xFF]);
        }
    }
    d.write_format(&Petscii::from_bytes(&nm), &Id::from_bytes(&id)).expect("format");
    if geos {
        let l = loc!(d, k.dir(), 0);
        let mut h = d.read_sector(l).expect("header");
        let (bt, bs) = *rng.pick(&[(1, 0), (19, 8), (17, 0), (k.last(), 0), (0, 0), (0, 255), (k.dir(), 12), (255, 3)]);
        h[0xAB] = bt as u8;
        h[0xAC] = bs as u8;
        h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        if rng.chance(1, 3) {
            // only the beginning of the signature counts
            h[0xAD + 11..0xAD + 16].copy_from_slice(&rng.bytes(5));
        }
        d.write_sector(l, &h).expect("header");
        d.initialize();
    }
    d
}

/// A random set of free blocks; the system blocks of the directory track stay in use.
fn random_free(k: Kind, rng: &mut Rng) -> BTreeSet<(usize, usize)> {
    let last = k.last();
    let sys = |t: usize, s: usize| t == k.dir() && s <= k.first_dir_sector();
    let mut f = BTreeSet::new();
    let style = rng.below(9);
    let (a, b) = (1 + rng.below(last), 1 + rng.below(last));
    let dens = 1 + rng.below(9);
    for t in 1..=last {
        let p10 = match style {
            0 => 10,
            1 => dens,
            2 => if t >= a.min(b) && t <= a.max(b) { dens } else { 0 },
            3 => if t >= a.min(b) && t <= a.max(b) { 0 } else { dens },
            4 => if t == a || t == b { dens } else { 0 },
            5 => if t < k.dir() { 0 } else { dens.min(3) },
            6 => if t > k.dir() { 0 } else { dens.min(3) },
            7 => if rng.chance(1, 8) { 2 } else { 0 },
            _ => 0,
        };
        for s in 0..k.spt(t) {
            if rng.below(10) < p10 && !sys(t, s) {
                f.insert((t, s));
            }
        }
    }
    if style >= 7 {
        for _ in 0..1 + rng.below(3) {
            let t = if rng.chance(1, 3) { *rng.pick(&[1, last, k.dir() - 1, k.dir() + 1, k.dir()]) } else { 1 + rng.below(last) };
            let s = if rng.chance(1, 3) { *rng.pick(&[0, k.spt(t) - 1]) } else { rng.below(k.spt(t)) };
            if !sys(t, s) {
                f.insert((t, s));
            }
        }
    }
    // on a real 1571 disk, track 53 is completely in use; sometimes try without that
    if k == Kind::D71 && !rng.chance(1, 4) {
        f = f.into_iter().filter(|x| x.0 != 53).collect();
    }
    f
}

fn jmap(k: Kind, d: &dyn Disk) -> String {
    let b = d.bam().expect("bam");
    let b = b.borrow();
    let mut v = vec![];
    for t in 1..=k.last() {
        let e = b.entry(t as u8).expect("entry");
        let mut by = vec![0u8; if k == Kind::D81 { 5 } else { 3 }];
        e.write_bitmap(&mut by);
        v.push(format!("[{},{},{}]", t, e.free_sectors, jbytes(&by)));
    }
    jlist(&v)
}

/// Store the map in the image and read it again, through this disk object or another one.
fn store(k: Kind, g: bool, d: &mut Box<dyn Disk>, again: bool, rng: &mut Rng) -> usize {
    let r = call("store", || d.bam()?.borrow_mut().flush());
    let other = if again {
        let _ = call("initialize", || {
            d.initialize();
            Ok(())
        });
        None
    } else {
        let mut c = make(k, g, rng);
        for (t, s) in all_locs(k, k.last()).into_iter().filter(|x| x.0 == k.dir() || x.0 == 53) {
            if let Ok(v) = call("read_sector", || d.read_sector(loc!(d, t, s))) {
                let _ = call("write_sector", || c.write_sector(loc!(c, t, s), &v));
            }
        }
        c.initialize();
        Some(c)
    };
    let mut j = J::new("store");
    let d = other.as_ref().unwrap_or(d);
    j.s("res", &r.map(|_| "ok".into()).unwrap_or_else(|e| e)).raw("m", &jmap(k, d.as_ref()));
    j.i("bf", d.blocks_free().map(|x| x as i64).unwrap_or(-1));
    emit(j.end());
    1
}

/// Mark single blocks, also ones that do not exist or are already as wanted.
fn marks(k: Kind, d: &Box<dyn Disk>, rng: &mut Rng) -> usize {
    let bam = d.bam().expect("bam");
    let entry = rng.chance(1, 3);
    let n = 1 + if rng.chance(1, 2) { 0 } else { rng.below(4) };
    // sometimes exchange a free and a used block: one of the same track, or of the same number elsewhere
    let mut swap: Vec<(usize, usize, bool)> = vec![];
    if rng.chance(1, 3) {
        let is = |t: usize, s: usize| bam.borrow().entry(t as u8).map(|e| (e.sector_map() >> s) & 1 == 1).unwrap_or(false);
        for _ in 0..60 {
            let (t, s) = (1 + rng.below(k.last()), rng.below(40));
            let (u, v) = if rng.chance(1, 3) { (t, rng.below(40)) } else { (1 + rng.below(k.last()), s) };
            if s < k.spt(t) && v < k.spt(u) && is(t, s) && !is(u, v) {
                swap = vec![(t, s, true), (u, v, false)];
                if rng.chance(1, 2) {
                    swap.reverse();
                }
                break;
            }
        }
    }
    let n = if swap.is_empty() { n } else { 2 };
    for i in 0..n {
        let mut t = if !entry && rng.chance(1, 3) {
            *rng.pick(&[0, 1, k.last(), k.last() + 1, k.dir(), 70, 71, 255, 80, 81])
        } else if rng.chance(1, 3) {
            *rng.pick(&[35, 36, 40, 41, 34, 37, 39, 42]) % (k.last() + 1)
        } else { 1 + rng.below(k.last()) };
        if entry && t == 0 {
            t = 1;
        }
        let there = t >= 1 && t <= k.last();
        let sp = if there { k.spt(t) } else { 17 };
        let s = if !entry && rng.chance(1, 2) { *rng.pick(&[0, sp - 1, sp, sp + 1, 31, 32, 39, 40, 63, 64, 127, 255]) } else { rng.below(sp) };
        let now = bam.borrow().entry(t as u8).map(|e| (e.sector_map() >> (s & 63)) & 1 == 1);
        let al = match now {
            Ok(free) if rng.chance(3, 4) => free,
            _ => rng.chance(1, 2),
        };
        let (t, s, al) = swap.get(i).cloned().unwrap_or((t, s, al));
        let r = call("mark", || {
            let l = loc!(d, t, s);
            let mut b = bam.borrow_mut();
            if entry {
                // through the track's entry
                let e = b.entry_mut(t as u8)?;
                if al {
                    e.allocate(s as u8)
                } else {
                    e.free(s as u8)
                }
                return Ok(());
            }
            if al {
                b.allocate(l)
            } else {
                b.free(l)
            }
        });
        let mut j = J::new("mark");
        j.i("l", (t * 256 + s) as i64).b("al", al);
        j.s("res", &r.map(|_| "ok".into()).unwrap_or_else(|e| e)).raw("m", &jmap(k, d.as_ref()));
        j.i("bf", d.blocks_free().map(|x| x as i64).unwrap_or(-1));
        emit(j.end());
    }
    n
}

pub fn run(seed: u64, events: usize) {
    let mut rng = Rng::new(seed);
    let mut n = 0;
    let mut disks: Vec<(Kind, bool, Box<dyn Disk>)> = vec![];
    for k in [Kind::D64, Kind::D71, Kind::D81] {
        for g in [false, true] {
            let d = make(k, g, &mut rng);
            disks.push((k, g, d));
        }
    }
    while n < events {
        let i = rng.below(disks.len());
        let (k, g, d) = (disks[i].0, disks[i].1, &disks[i].2);
        let free = random_free(k, &mut rng);
        let bam = d.bam().expect("bam");
        let r = call("map", || {
            let mut b = bam.borrow_mut();
            for (t, s) in all_locs(k, k.last()) {
                let l = loc!(d, t, s);
                if free.contains(&(t, s)) {
                    b.free(l)?;
                } else {
                    b.allocate(l)?;
                }
            }
            Ok(())
        });
        let mut j = J::new("map");
        j.s("k", k.name()).b("g", g).raw("fr", &jints(&free.iter().map(|x| x.0 * 256 + x.1).collect::<Vec<_>>()));
        j.s("res", &r.map(|_| "ok".into()).unwrap_or_else(|e| e)).raw("m", &jmap(k, d.as_ref()));
        j.i("bf", d.blocks_free().map(|x| x as i64).unwrap_or(-1));
        emit(j.end());
        n += 1;
        drop(bam);
        if rng.chance(4, 5) {
            let again = rng.chance(1, 3);
            n += store(k, g, &mut disks[i].2, again, &mut rng);
        }
        for _ in 0..rng.below(12) {
            n += marks(k, &disks[i].2, &mut rng);
            if rng.chance(2, 3) {
                let again = rng.chance(1, 3);
            n += store(k, g, &mut disks[i].2, again, &mut rng);
            }
        }
        let d = &disks[i].2;
        let bam = d.bam().expect("bam");
        // queries from everywhere
        let q = 15 + rng.below(25);
        let ask = |prev: Option<(usize, usize)>, take: bool| -> Option<(usize, usize)> {
            let r = call("next", || {
                let p = prev.map(|(t, s)| loc!(d, t, s));
                let l = bam.borrow_mut().next_free_block(p)?;
                if take {
                    bam.borrow_mut().allocate(l)?;
                }
                Ok(l)
            });
            let mut j = J::new(if take { "take" } else { "next" });
            j.i("pv", prev.map(|(t, s)| (t * 256 + s) as i64).unwrap_or(0));
            match &r {
                Ok(l) => j.s("res", "ok").i("l", l2i(l.0, l.1)),
                Err(e) => j.s("res", e).i("l", 0),
            };
            emit(j.end());
            r.ok().map(|l| (l.0 as usize, l.1 as usize))
        };
        let anyprev = |rng: &mut Rng| loop {
            let t = if rng.chance(1, 4) { *rng.pick(&[1, k.last(), k.dir() - 1, k.dir(), k.dir() + 1, 24, 25, 26]) } else { 1 + rng.below(k.last()) };
            if k == Kind::D71 && t == 53 {
                continue;
            }
            let s = if rng.chance(1, 4) { *rng.pick(&[0, k.spt(t) - 1]) } else { rng.below(k.spt(t)) };
            return (t, s);
        };
        for _ in 0..q {
            let p = if rng.chance(1, 6) { None } else { Some(anyprev(&mut rng)) };
            ask(p, false);
            n += 1;
        }
        // follow a chain, sometimes to the end of the disk
        let mut p = if rng.chance(1, 2) { None } else { Some(anyprev(&mut rng)) };
        let long = rng.chance(1, 12) && free.len() < 1500;
        let m = if long { 4000 } else { 5 + rng.below(60) };
        for _ in 0..m {
            let r = ask(p, true);
            n += 1;
            if r.is_none() {
                break;
            }
            p = r;
        }
    }
}
