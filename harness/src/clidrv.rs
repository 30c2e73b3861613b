//! Sessions with the command-line tool: each command is run as a process on an image file in a
//! scratch directory; status, output and what changed in the image are recorded.
use crate::common::*;
use crate::imgdrv::{build, damage, damage_map, jsec};
use cbm::Petscii;
use std::ffi::OsString;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Run {
    st: i64,
    out: Vec<u8>,
    err: Vec<u8>,
}

fn exec(dir: &PathBuf, args: &[OsString], input: &[u8]) -> Run {
    let exe = std::env::var("CDISK").expect("CDISK");
    let mut ch = Command::new(exe)
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cdisk");
    let (mut i, mut o, mut e) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let data = input.to_vec();
    let ti = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let to = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.by_ref().take(64 << 20).read_to_end(&mut v);
        v
    });
    let te = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.by_ref().take(1 << 20).read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s.code().map(|c| c as i64).unwrap_or(999),
            None if t0.elapsed().as_secs() >= 20 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break 998;
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let _ = ti.join();
    Run { st, out: to.join().unwrap(), err: te.join().unwrap() }
}

struct Sess {
    dir: PathBuf,
    img: String,
    k: Kind,
    trk: usize,
    /// the image file as of the last command (None: no file)
    last: Option<Vec<u8>>,
    ok: bool,
    host: usize,
    frees: bool,
}

fn cps(s: &str) -> String {
    jints(&s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

impl Sess {
    fn nsec(&self) -> usize {
        nsectors(self.k, self.trk) * 256
    }
    fn path(&self) -> PathBuf {
        self.dir.join(&self.img)
    }
    fn run(&self, args: &[&str], input: &[u8]) -> Run {
        let mut v: Vec<OsString> = vec![self.img.clone().into()];
        v.extend(args.iter().map(|a| OsString::from(*a)));
        exec(&self.dir, &v, input)
    }
    /// record a finished command
    fn done(&mut self, mut j: J, r: &Run, lines: bool) {
        let now = fs::read(self.path()).ok();
        let n = self.nsec();
        let (mut chg, mut same) = ("[]".to_string(), now == self.last);
        if let (true, Some(a), Some(b)) = (self.ok, &self.last, &now) {
            same = a.len() == b.len() && a[n..] == b[n..];
            if same {
                let v: Vec<String> = all_locs(self.k, self.trk)
                    .into_iter()
                    .enumerate()
                    .filter(|(i, _)| a[i * 256..i * 256 + 256] != b[i * 256..i * 256 + 256])
                    .map(|(i, (t, s))| format!("[{},{}]", t * 256 + s, jsec(&b[i * 256..i * 256 + 256])))
                    .collect();
                chg = jlist(&v);
            }
        }
        let zero = now.as_ref().map(|v| v.iter().all(|b| *b == 0)).unwrap_or(false);
        j.i("st", r.st).b("err", !r.err.is_empty()).b("saidout", !r.out.is_empty()).raw("chg", &chg).b("same", same);
        j.i("len", now.as_ref().map(|v| v.len() as i64).unwrap_or(-1)).b("zero", zero);
        j.raw("out", &if lines { jlines(&r.out) } else { "[]".to_string() });
        self.last = now;
        emit(j.end());
    }
    fn start(&mut self, res: &str, dmg: usize, et: &[u8]) {
        let mut ix = vec![];
        let mut secs = vec![];
        if self.ok {
            let b = self.last.as_ref().unwrap();
            for i in 0..nsectors(self.k, self.trk) {
                let s = &b[i * 256..i * 256 + 256];
                if s.iter().all(|x| *x == 0) {
                    ix.push(0);
                } else {
                    secs.push(jsec(s));
                    ix.push(secs.len());
                }
            }
        }
        let mut j = J::new("img");
        j.s("k", self.k.name()).i("trk", self.trk as i64).i("dmg", dmg as i64).s("res", res).bytes("et", et);
        j.raw("ix", &jints(&ix)).raw("secs", &jlist(&secs));
        emit(j.end());
    }
    /// names of the entries as text, straight from the directory track
    fn names(&self) -> Vec<String> {
        let mut v = vec![];
        if let (true, Some(b)) = (self.ok, &self.last) {
            for l in all_locs(self.k, self.trk) {
                let o = offset(self.k, l.0, l.1);
                let border = b[offset(self.k, self.k.dir(), 0) + 0xAD] == b'G' && l.0 != self.k.dir();
                if (l.0 == self.k.dir() && l.1 >= self.k.first_dir_sector()) || (border && {
                    let h = offset(self.k, self.k.dir(), 0);
                    (b[h + 0xAB] as usize, b[h + 0xAC] as usize) == l
                }) {
                    for s in 0..8 {
                        let e = &b[o + 32 * s + 2..o + 32 * s + 32];
                        if e[0] & 0x8F != 0 {
                            let mut nm = e[3..19].to_vec();
                            while nm.last() == Some(&0xA0) {
                                nm.pop();
                            }
                            v.push(Petscii::from_bytes(&nm).to_string());
                        }
                    }
                }
            }
        }
        v.retain(|s| !s.starts_with('-') && !s.is_empty());
        v
    }
}

fn text(rng: &mut Rng) -> String {
    let n = match rng.below(10) {
        0 => 16,
        1 => 17,
        2 => 18 + rng.below(6),
        _ => 1 + rng.below(5),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push(match rng.below(14) {
            0..=5 => (b'a' + rng.below(3) as u8) as char,
            6 | 7 => (b'A' + rng.below(26) as u8) as char,
            8 => (b'0' + rng.below(10) as u8) as char,
            9 => *rng.pick(&[' ', '!', '"', '\\', '*', '?', '/', '.', ',', '=', '$', '~', '\'']),
            10 => *rng.pick(&['£', '↑', '←', '▌', '\u{a0}', '━', '▒']),
            11 => *rng.pick(&['é', '€', '😀', '{', '\t']),
            _ => 'x',
        });
    }
    if s.starts_with('-') || s == "/" || s.starts_with('.') {
        s = format!("q{}", s);
    }
    s
}
fn plain(s: &str) -> bool {
    s.len() <= 16 && !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric())
}

/// data of n bytes with a period
fn data(rng: &mut Rng) -> (usize, Vec<u8>) {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 254 * (1 + rng.below(4)),
        3 => 254 * (1 + rng.below(4)) + 1,
        4 => 253,
        5 if rng.chance(1, 4) => 8192 + rng.below(9000),
        6 if rng.chance(1, 10) => 254 * (600 + rng.below(200)),
        _ => rng.below(1500),
    };
    let p = if n <= 800 && rng.chance(1, 2) { n.max(1) } else { 251 };
    (n, rng.payload(p))
}
fn expand(d: &(usize, Vec<u8>)) -> Vec<u8> {
    (0..d.0).map(|i| d.1[i % d.1.len()]).collect()
}

fn command(s: &mut Sess, rng: &mut Rng, mutate: bool) {
    let names = s.names();
    let pick = |rng: &mut Rng| -> String {
        if !names.is_empty() && rng.chance(4, 5) {
            rng.pick(&names).clone()
        } else {
            text(rng)
        }
    };
    let what = if mutate { rng.below(26) } else { 14 + rng.below(12) };
    match what {
        0..=3 => {
            let d = data(rng);
            s.host += 1;
            let hf = format!("h{}", s.host);
            let stdin = rng.chance(1, 4);
            let noname = !stdin && rng.chance(1, 6);
            let nm = if noname { hf.clone() } else if rng.chance(1, 5) { pick(rng) } else { text(rng) };
            let ty = *rng.pick(&["", "seq", "prg", "usr", "prg"]);
            let src = if stdin { "-".to_string() } else { hf.clone() };
            let bytes = expand(&d);
            if !stdin {
                fs::write(s.dir.join(&hf), &bytes).expect("host file");
            }
            let mut a: Vec<&str> = vec!["write"];
            if !ty.is_empty() {
                a.extend(&[*rng.pick(&["-t", "--type"]), ty]);
            }
            a.push(&src);
            if !noname {
                a.push(&nm);
            }
            let r = s.run(&a, if stdin { &bytes } else { b"" });
            let _ = fs::remove_file(s.dir.join(&hf));
            let mut j = J::new("cmd");
            j.s("c", "write").raw("nm", &cps(&nm)).i("ty", match ty { "prg" => 2, "usr" => 3, _ => 1 }).i("n", d.0 as i64).bytes("b", &d.1);
            s.done(j, &r, true);
        }
        4 | 5 => {
            let d = data(rng);
            s.host += 1;
            let nm = pick(rng);
            let noname = plain(&nm) && rng.chance(1, 2);
            let hf = if noname { nm.clone() } else { format!("h{}", s.host) };
            let stdin = !noname && rng.chance(1, 4);
            let bytes = expand(&d);
            if !stdin {
                fs::write(s.dir.join(&hf), &bytes).expect("host file");
            }
            let src = if stdin { "-" } else { &hf };
            let a: Vec<&str> = if noname { vec!["append", src] } else { vec!["append", src, &nm] };
            let r = s.run(&a, if stdin { &bytes } else { b"" });
            let _ = fs::remove_file(s.dir.join(&hf));
            let mut j = J::new("cmd");
            j.s("c", "append").raw("nm", &cps(&nm)).i("n", d.0 as i64).bytes("b", &d.1);
            s.done(j, &r, true);
        }
        6 | 7 => {
            let a = pick(rng);
            let b = if rng.chance(1, 4) { pick(rng) } else { text(rng) };
            let r = s.run(&["rename", &a, &b], b"");
            let mut j = J::new("cmd");
            j.s("c", "rename").raw("nm", &cps(&a)).raw("to", &cps(&b));
            s.done(j, &r, true);
        }
        8..=10 => {
            let a = pick(rng);
            let r = s.run(&["delete", &a], b"");
            let mut j = J::new("cmd");
            j.s("c", "delete").raw("nm", &cps(&a));
            s.done(j, &r, true);
        }
        11 if rng.chance(1, 4) => {
            let mut a = text(rng);
            if rng.chance(1, 3) {
                a = "A DISK".to_string();
            }
            let id = match rng.below(6) {
                0 => "a".to_string(),
                1 => "abc".to_string(),
                2 => "é1".to_string(),
                _ => format!("{}{}", rng.below(10), (b'a' + rng.below(26) as u8) as char),
            };
            let r = s.run(&["format", &a, &id], b"");
            let mut j = J::new("cmd");
            j.s("c", "format").raw("nm", &cps(&a)).raw("id", &cps(&id));
            s.done(j, &r, true);
        }
        12 | 13 => {
            let fr = rng.chance(1, 2);
            let t = if rng.chance(1, 6) { -1 } else if rng.chance(1, 12) { s.k.last() as i64 + 1 } else { 1 + rng.below(s.k.last()) as i64 };
            let top = if rng.chance(1, 4) || (t < 0 && rng.chance(1, 2)) { 41 } else { 17 };
            let sc = if rng.chance(1, 8) { -1 } else { rng.below(top) as i64 };
            if t > 80 {
                return;
            }
            let f = |v: i64| if v < 0 { "all".to_string() } else { v.to_string() };
            let r = s.run(&["bam", if fr { "free" } else { "allocate" }, &f(t), &f(sc)], b"");
            let mut j = J::new("cmd");
            j.s("c", "bam").b("fr", fr).i("t", t).i("s", sc);
            s.done(j, &r, true);
            s.frees |= fr;
        }
        14 | 15 => {
            let v = rng.below(4);
            let long = ["", "--verbose"];
            let short = ["", "-v", "-vv", "-vvv"];
            let mut a = vec!["dir"];
            if v == 1 && rng.chance(1, 2) {
                a.push(long[1]);
            } else if v > 0 {
                a.push(short[v]);
            }
            let r = s.run(&a, b"");
            let mut j = J::new("cmd");
            j.s("c", "dir").i("v", v as i64);
            s.done(j, &r, true);
        }
        16 => {
            let r = s.run(&["bam", "show"], b"");
            let mut j = J::new("cmd");
            j.s("c", "show");
            s.done(j, &r, true);
        }
        17 | 18 => {
            let r = s.run(&["validate"], b"");
            let mut j = J::new("cmd");
            j.s("c", "validate");
            s.done(j, &r, true);
        }
        19..=21 => {
            let c = if rng.chance(1, 2) { "read" } else { "geosread" };
            let nm = pick(rng);
            let dst = if plain(&nm) && nm != s.img && rng.chance(1, 2) { nm.clone() } else if rng.chance(1, 2) { "-".to_string() } else { "o1".to_string() };
            let there = rng.chance(1, 3);
            if there && dst != "-" {
                // a longer file of that name is there already
                let _ = fs::write(s.dir.join(&dst), vec![0x55u8; 70000]);
            }
            let mut a: Vec<&str> = vec![c, &nm];
            if dst != nm {
                a.push(&dst);
            }
            let r = s.run(&a, b"");
            let got = if dst == "-" { Some(r.out.clone()) } else { fs::read(s.dir.join(&dst)).ok() };
            if dst != "-" {
                let _ = fs::remove_file(s.dir.join(&dst));
            }
            let mut j = J::new("cmd");
            let g = got.unwrap_or_default();
            j.s("c", c).raw("nm", &cps(&nm)).bytes("hf", if r.st == 0 { &g } else { b"" });
            s.done(j, &r, false);
        }
        22 => {
            let nm = pick(rng);
            let r = s.run(&["dump", &nm], b"");
            let mut j = J::new("cmd");
            j.s("c", "fdump").raw("nm", &cps(&nm));
            s.done(j, &r, true);
        }
        23 if s.k == Kind::D64 && rng.chance(1, 6) => {
            let r = s.run(&["dump"], b"");
            let mut j = J::new("cmd");
            j.s("c", "ddump");
            s.done(j, &r, true);
        }
        24 => {
            let r = s.run(&["create"], b"");
            let mut j = J::new("cmd");
            j.s("c", "create");
            s.done(j, &r, true);
        }
        _ => {
            let bad: &[&[&str]] = &[
                &[],
                &["frobnicate"],
                &["bam"],
                &["bam", "allocate", "0", "0"],
                &["bam", "allocate", "81", "0"],
                &["bam", "free", "1", "40"],
                &["bam", "free", "1", "-1"],
                &["bam", "free", "x", "1"],
                &["bam", "free", "256", "1"],
                &["bam", "allocate", "1"],
                &["write"],
                &["write", "-t", "rel", "nosuch", "n"],
                &["write", "nosuch", "n"],
                &["write", "-t", "prg", "nosuch"],
                &["append", "nosuch", "n"],
                &["read"],
                &["rename", "x"],
                &["delete"],
                &["format"],
                &["format", "x"],
                &["dir", "extra"],
                &["validate", "extra"],
                &["create", "extra"],
                &["read", "-z", "x"],
                &["delete", "no such file!"],
                &["read", "no such file!", "o2"],
                &["geosread", "no such file!", "-"],
                &["dump", "no such file!"],
                &["write", ".", "dirname"],
            ];
            let i = rng.below(bad.len() + 1);
            let r = if i == bad.len() {
                let v: Vec<OsString> = vec![s.img.clone().into(), "delete".into(), OsString::from_vec(vec![0xFF, 0xFE])];
                exec(&s.dir, &v, b"")
            } else {
                s.run(bad[i], b"")
            };
            let _ = fs::remove_file(s.dir.join("o2"));
            let mut j = J::new("cmd");
            j.s("c", "bad").i("i", i as i64);
            s.done(j, &r, true);
        }
    }
}

/// cli SEED EVENTS
pub fn run(seed: u64, events: usize) {
    let mut rng = Rng::new(seed ^ 0xC11);
    let lines = || OUT.lock().unwrap().as_ref().map(|o| o.lines).unwrap_or(0);
    let dir = scratch_root().join("cli");
    while lines() < events {
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch");
        let how = rng.below(10);
        let mut s = Sess { dir: dir.clone(), img: String::new(), k: Kind::D64, trk: 35, last: None, ok: false, host: 0, frees: false };
        let mut mutate = true;
        let mut len = 14 + rng.below(16);
        match how {
            0 | 1 => {
                // no file yet
                let (k, ext) = *rng.pick(&[(Kind::D64, ".d64"), (Kind::D64, ".D64"), (Kind::D71, ".d71"), (Kind::D81, ".d81"), (Kind::D81, ".D81"), (Kind::D64, ".img"), (Kind::D64, "")]);
                s.k = k;
                s.trk = k.last();
                s.img = format!("disk{}", ext);
                s.start("none", 0, &[]);
                for _ in 0..rng.below(3) {
                    command_pre(&mut s, &mut rng);
                }
                let r = s.run(&["create"], b"");
                let mut j = J::new("cmd");
                j.s("c", "create");
                s.done(j, &r, true);
                s.ok = s.last.as_ref().map(|v| v.len() == image_size(s.k, s.trk, false)).unwrap_or(false);
                if !s.ok {
                    continue;
                }
                for _ in 0..rng.below(3) {
                    command(&mut s, &mut rng, false);
                }
                let id = format!("{}{}", rng.below(10), (b'a' + rng.below(26) as u8) as char);
                let nm = if rng.chance(1, 2) { "New Disk".to_string() } else { text(&mut rng) };
                let r = s.run(&["format", &nm, &id], b"");
                let mut j = J::new("cmd");
                j.s("c", "format").raw("nm", &cps(&nm)).raw("id", &cps(&id));
                s.done(j, &r, true);
                mutate = nm.chars().count() <= 16;
            }
            2 if rng.chance(1, 3) => {
                // a file of the wrong size
                s.img = format!("odd.{}", rng.pick(&["d64", "d71", "d81", "bin"]));
                let n = *rng.pick(&[0, 1, 174847, 174849, 200000]);
                s.last = Some(rng.bytes(n));
                fs::write(s.path(), s.last.as_ref().unwrap()).expect("image");
                s.start("odd", 0, &[]);
                for _ in 0..6 {
                    command_pre(&mut s, &mut rng);
                }
                continue;
            }
            _ => {
                let focus = *rng.pick(&["all", "all", "geos", "rel"]);
                let mut g = build(&mut rng, focus);
                let mut dmg = 0;
                match rng.below(8) {
                    0 => {
                        dmg = 1;
                        let n = 1 + rng.below(8);
                        damage_map(&mut g, &mut rng, n);
                    }
                    1 | 2 => {
                        dmg = 2;
                        let n = 1 + rng.below(4);
                        damage(&mut g, &mut rng, n);
                    }
                    3 | 4 => {
                        // hardly any room left
                        let leave = rng.below(8);
                        let mut free: Vec<(usize, usize)> = all_locs(g.k, g.k.last()).into_iter().filter(|l| !g.used.contains(l)).collect();
                        for i in 0..free.len() {
                            let j = i + rng.below(free.len() - i);
                            free.swap(i, j);
                        }
                        free.truncate(free.len().saturating_sub(leave));
                        g.used.extend(free);
                        g.set_bam();
                    }
                    _ => {}
                }
                mutate = dmg == 0;
                s.k = g.k;
                s.trk = g.trk;
                s.img = match rng.below(4) {
                    0 => "anyname".to_string(),
                    1 => format!("disk.{}", s.k.name().to_uppercase()),
                    _ => format!("disk.{}", s.k.name()),
                };
                let et = if rng.chance(1, 4) { rng.bytes(nsectors(s.k, s.trk)) } else { vec![] };
                let mut b = g.b.clone();
                b.extend_from_slice(&et);
                fs::write(s.path(), &b).expect("image");
                s.last = Some(b);
                s.ok = true;
                s.start("ok", dmg, &et);
                if dmg > 0 {
                    len = 10;
                }
            }
        }
        for _ in 0..len {
            let m = mutate && !s.frees;
            command(&mut s, &mut rng, m);
        }
    }
    let _ = fs::remove_dir_all(&dir);
}

/// commands on an image that is not there or not an image: all of them but `create` fail
fn command_pre(s: &mut Sess, rng: &mut Rng) {
    let _ = fs::write(s.dir.join("src"), b"some data");
    let a: &[&str] = *rng.pick::<&[&str]>(&[
        &["dir"],
        &["dir", "-vv"],
        &["bam", "show"],
        &["bam", "allocate", "1", "1"],
        &["bam", "free", "all", "all"],
        &["validate"],
        &["read", "x", "o3"],
        &["geosread", "x", "-"],
        &["write", "src", "x"],
        &["append", "src", "x"],
        &["rename", "x", "y"],
        &["delete", "x"],
        &["dump"],
        &["dump", "x"],
        &["format", "n", "id"],
    ]);
    let r = s.run(a, b"");
    let _ = fs::remove_file(s.dir.join("o3"));
    let mut j = J::new("cmd");
    j.s("c", "pre");
    s.done(j, &r, true);
}
