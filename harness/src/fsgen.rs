//! Generators of histories: random ones per profile, and replay of given command scripts
//! (such as the behaviours enumerated by TLC from the specification).

use std::fs;

use crate::common::*;
use crate::fsdrv::*;

pub fn script(path: &str, seed: u64) {
    let text = fs::read_to_string(path).expect("script");
    let mut s = Sess::new(scratch_root(), seed);
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        s.exec(line);
    }
    s.shutdown();
}

struct G {
    s: Sess,
    r: Rng,
    p: String,
    nextw: u32,
    trk_last: usize,
}

fn name_pool(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"A".to_vec(),
        b"B".to_vec(),
        b"FILE".to_vec(),
        b"FILE2".to_vec(),
        vec![0xC1],
        b"EXACTLYFIFTEENC".to_vec(),
        b"EXACTLYSIXTEENCH".to_vec(),
        b"EXACTLYSIXTEENCI".to_vec(),
        b"SEVENTEENCHARSLNG".to_vec(),
        vec![],
        vec![0],
        b"X\xA0Y".to_vec(),
        b"PAD\xA0\xA0".to_vec(),
        b"PAD".to_vec(),
        b"A\xA0".to_vec(),
        vec![0xA0],
        b"A B".to_vec(),
        vec![0xFF, 0x00, 0x80],
        b"*".to_vec(),
        b"FIL".to_vec(),
    ];
    for _ in 0..4 {
        let n = r.below(18);
        v.push(r.bytes(n));
    }
    v
}
const LENS: [usize; 22] = [
    0, 1, 2, 100, 252, 253, 254, 255, 256, 507, 508, 509, 761, 762, 763, 1016, 1270, 2539, 2540, 2541, 5080, 13,
];

impl G {
    fn x(&mut self, c: String) {
        let op = c.split(' ').next().unwrap_or("");
        let den = match self.p.as_str() {
            "crash" => 3,
            "mixed" => 25,
            _ => 0,
        };
        if den > 0 && ["create", "createw", "write", "flush", "drop", "del", "ren", "attr", "hdrset"].contains(&op) && self.r.chance(1, den) {
            let sd = self.r.below(1 << 30);
            self.s.exec(&format!("mid 0 {} {}", sd, c));
        } else {
            self.s.exec(&c);
        }
    }
    fn geometry(&mut self) -> (Kind, usize, bool) {
        let pick = if self.p == "geo" { self.r.below(8) } else { self.r.below(10) };
        match pick {
            0 | 1 | 8 => (Kind::D64, 35, false),
            2 => (Kind::D64, 35, true),
            3 => (Kind::D64, 40, false),
            4 => (Kind::D64, 40, true),
            5 | 9 => (Kind::D71, 70, false),
            6 => (Kind::D71, 70, true),
            _ => (Kind::D81, 80, self.r.chance(1, 3)),
        }
    }
    fn start(&mut self) {
        let (k, t, e) = self.geometry();
        let bk = if self.r.chance(1, 2) { "m" } else { "f" };
        self.trk_last = k.last();
        self.x(format!("new {} {} {} {}", k.name(), t, e as u8, bk));
        if self.r.chance(1, 3) {
            let (a, b) = (self.r.below(100000), self.r.below(2));
            self.x(format!("dirty {} {}", a, b));
        }
        self.format();
        if self.r.chance(1, 4) {
            let t = if k == Kind::D81 { 39 } else { 19 };
            let sct = self.r.below(10);
            self.x(format!("geos {} {}", t, sct));
        }
    }
    fn format(&mut self) {
        let n = match self.r.below(6) {
            0 => 0,
            1 => 16,
            2 => 15,
            _ => self.r.below(17),
        };
        let mut nm = self.r.bytes(n);
        if self.r.chance(1, 2) {
            nm = b"TEST DISK"[..n.min(9)].to_vec();
        }
        let mut id = self.r.bytes(2);
        for i in 0..2 {
            if self.r.chance(1, 3) {
                id[i] = *self.r.pick(&[0, 0xA0, 0x20, 0xFF]);
            }
        }
        self.x(format!("format {} {}", hexs(&nm), hexs(&id)));
    }
    fn files(&self) -> Vec<Vec<u8>> {
        self.s.len.keys().cloned().collect()
    }
    fn busy(&self, n: &[u8]) -> bool {
        self.s.writers.values().any(|(_, m)| m == &strip(n))
    }
    fn ty(&mut self) -> usize {
        *self.r.pick(&[1, 2, 3, 2, 1, 0, 2])
    }
    fn wlen(&mut self) -> usize {
        match self.r.below(8) {
            0..=4 => *self.r.pick(&LENS),
            5 => self.r.below(300),
            6 => self.r.below(3000),
            _ => *self.r.pick(&[254, 508, 254 * 3, 254 * 10]),
        }
    }
    /// Fill the data area so that only `k` blocks stay free; the file keeps the name Z.
    fn fill_to(&mut self, k: usize, pieces: usize) {
        let free = self.s.last_bf();
        if free as usize <= k + pieces {
            return;
        }
        let total = free as usize - k;
        let mut left = total;
        for i in 0..pieces {
            let n = if i + 1 == pieces { left } else { total / pieces };
            left -= n;
            let nm = format!("ZFILL{}", i).into_bytes();
            let w = self.w();
            self.x(format!("createw {} {} 2", w, hexs(&nm)));
            let sd = self.r.below(1 << 30);
            self.x(format!("write {} {} {}", w, n * 254 - 3, sd));
            self.x(format!("drop {}", w));
        }
    }
    /// Leave scattered holes: many small files, then delete some of them.
    fn fragment(&mut self, n: usize) {
        let mut names = vec![];
        for i in 0..n {
            let nm = format!("FR{}", i).into_bytes();
            let w = self.w();
            self.x(format!("createw {} {} 1", w, hexs(&nm)));
            let (l, sd) = (self.r.below(1200), self.r.below(1 << 30));
            self.x(format!("write {} {} {}", w, l, sd));
            self.x(format!("drop {}", w));
            names.push(nm);
        }
        for nm in names {
            if self.r.chance(1, 2) {
                self.x(format!("del {} 0", hexs(&nm)));
            }
        }
    }
    fn fill_dir(&mut self, leave: usize) {
        let max = match self.s.kind {
            Kind::D81 => 296,
            _ => 144,
        };
        let have = self.s.len.len();
        for i in have..max - leave {
            let nm = format!("D{}", i).into_bytes();
            self.x(format!("create {} 1", hexs(&nm)));
        }
    }
    fn w(&mut self) -> u32 {
        self.nextw += 1;
        self.nextw
    }
    fn pick_name(&mut self, pool: &[Vec<u8>], existing: bool) -> Vec<u8> {
        let f = self.files();
        if existing && !f.is_empty() {
            self.r.pick(&f).clone()
        } else {
            self.r.pick(pool).clone()
        }
    }
    fn step(&mut self, pool: &[Vec<u8>]) {
        let ws: Vec<u32> = self.s.writers.keys().cloned().collect();
        let c = self.r.below(100);
        let w = if ws.is_empty() { 0 } else { *self.r.pick(&ws) };
        // weights per profile
        let (wr_bias, snap_bias, re_bias, bad_bias) = match self.p.as_str() {
            "content" => (70, 0, 5, 2),
            "crash" => (50, 20, 2, 4),
            "persist" => (40, 3, 20, 2),
            "error" => (30, 1, 2, 30),
            "dir" => (12, 1, 4, 10),
            "readonly" => (30, 0, 3, 5),
            _ => (40, 4, 5, 8),
        };
        if self.r.below(100) < snap_bias {
            let m = self.r.below(10);
            return self.x(format!("snap {}", m));
        }
        if self.r.below(100) < re_bias {
            let how = self.r.below(5);
            if how >= 3 {
                if how == 3 {
                    self.x("dropall".into());
                }
                return self.x("init".into());
            }
            self.x("dropall".into());
            return self.x(format!("reopen 0 {}", how));
        }
        if !self.s.parked.is_empty() && self.r.chance(1, 12) {
            return self.x("unpark".into());
        }
        if self.r.below(100) < bad_bias {
            return self.bad(pool);
        }
        if w != 0 && self.r.below(100) < wr_bias {
            match self.r.below(10) {
                0..=5 => {
                    let (l, sd) = (self.wlen(), self.r.below(1 << 30));
                    return self.x(format!("write {} {} {}", w, l, sd));
                }
                6 => return self.x(format!("flush {}", w)),
                7 if self.r.chance(1, 2) => return self.x(format!("park {}", w)),
                7 => return self.x(format!("flush {}", w)),
                _ => return self.x(format!("drop {}", w)),
            }
        }
        match c {
            0..=24 => {
                let n = self.pick_name(pool, false);
                let t = self.ty();
                if self.r.chance(1, 2) {
                    self.x(format!("create {} {}", hexs(&n), t));
                } else {
                    let w = self.w();
                    self.x(format!("createw {} {} {}", w, hexs(&n), t));
                }
            }
            25..=44 => {
                let n = self.pick_name(pool, true);
                if !self.busy(&n) && ws.len() < 4 {
                    let w = self.w();
                    let k = self.r.below(2);
                    self.x(format!("writer {} {} {}", w, hexs(&n), k));
                    if self.s.writers.contains_key(&w) {
                        let (l, sd) = (self.wlen(), self.r.below(1 << 30));
                        self.x(format!("write {} {} {}", w, l, sd));
                    }
                }
            }
            45..=59 => {
                let e = self.r.chance(9, 10);
                let n = self.pick_name(pool, e);
                let m = self.r.below(12);
                match self.r.below(6) {
                    0 => {
                        self.x(format!("rstart {}", hexs(&n)));
                        let k = *self.r.pick(&[0usize, 1, 100, 253, 254, 255, 508, 1000]);
                        self.x(format!("rstep {}", k));
                    }
                    1 => {
                        let k = *self.r.pick(&[0usize, 1, 100, 253, 254, 255, 508, 1000]);
                        self.x(format!("rstep {}", k));
                    }
                    2 => self.x(format!("rend {}", m)),
                    k => self.x(format!("read {} {} {}", hexs(&n), m, k % 2)),
                }
            }
            60..=74 => {
                let n = self.pick_name(pool, true);
                if !self.busy(&n) {
                    let m = self.r.below(3);
                    self.x(format!("del {} {}", hexs(&n), m));
                }
            }
            75..=82 => {
                let e = self.r.chance(4, 5);
                let n = self.pick_name(pool, e);
                let e = self.r.chance(1, 6);
                let m = self.pick_name(pool, e);
                self.x(format!("ren {} {}", hexs(&n), hexs(&m)));
            }
            83..=87 => {
                let n = self.pick_name(pool, true);
                let t = *self.r.pick(&[0usize, 1, 2, 3, 5, 7, 15]);
                let fl = self.r.below(8) * 16 + if t == 0 || self.r.chance(3, 4) { 128 } else { 0 };
                self.x(format!("attr {} {}", hexs(&n), t + fl));
            }
            88..=90 => {
                let n = self.pick_name(pool, true);
                let k = self.r.below(2);
                self.x(format!("occ {} {}", hexs(&n), k));
            }
            91..=93 => self.x("validate".into()),
            94 => self.x("nfde".into()),
            96 | 97 => {
                let (sd, m) = (self.r.below(1 << 30), self.r.below(2));
                self.x(format!("junk {} {}", sd, m));
            }
            95 => {
                if ws.is_empty() {
                    let n = self.r.below(19);
                    let nm = self.r.bytes(n);
                    let id = self.r.bytes(2);
                    self.x(format!("hdrset {} {}", hexs(&nm), hexs(&id)));
                }
            }
            _ => {
                if w != 0 {
                    self.x(format!("flush {}", w));
                } else {
                    self.x("validate".into());
                }
            }
        }
    }
    /// Operations that must fail.
    fn bad(&mut self, pool: &[Vec<u8>]) {
        let long: Vec<u8> = (0..17 + self.r.below(3)).map(|i| 65 + i as u8).collect();
        let e = self.pick_name(pool, true);
        match self.r.below(11) {
            0 => self.x(format!("create {} 2", hexs(&e))),
            1 => self.x(format!("create {} 2", hexs(&long))),
            2 => self.x(format!("ren {} {}", hexs(&e), hexs(&long))),
            3 => self.x(format!("ren {} {}", hexs(&e), hexs(&e))),
            4 => self.x("ren 4e4f4e45 4e4f4e4532".into()),
            5 => self.x("del 4e4f4e45 0".into()),
            6 => self.x(format!("badname {} {}", hexs(&e), hexs(&long))),
            7 => {
                let t = *self.r.pick(&[0usize, 255, 81, 41, 90]);
                self.x(format!("wsec {} 0 256", if t <= self.s.trk { 0 } else { t }));
            }
            8 => {
                let n = *self.r.pick(&[0usize, 1, 255, 257, 512]);
                self.x(format!("wsec 1 0 {}", n));
            }
            9 => {
                if self.s.writers.is_empty() {
                    self.x(format!("format {} 4142", hexs(&long)));
                }
            }
            _ => {
                let m = self.pick_name(pool, true);
                self.x(format!("ren {} {}", hexs(&e), hexs(&m)));
            }
        }
    }
    /// Attempts on an image opened read-only.
    fn ro_step(&mut self, pool: &[Vec<u8>]) {
        let e = self.pick_name(pool, true);
        let n = self.pick_name(pool, false);
        let ws: Vec<u32> = self.s.writers.keys().cloned().collect();
        match self.r.below(16) {
            0 | 1 => self.x(format!("create {} 2", hexs(&n))),
            2 => self.x(format!("del {} {}", hexs(&e), self.r.0 % 2)),
            3 => self.x(format!("ren {} {}", hexs(&e), hexs(&n))),
            4 => self.x(format!("attr {} {}", hexs(&e), 0x81)),
            5 => self.x("format 41 4243".into()),
            6 => {
                let l = self.r.below(17) + 1;
                self.x(format!("wsec {} 0 256", l));
            }
            7 => self.x("hdrset 4142 4344".into()),
            8 | 9 => {
                if !self.busy(&e) {
                    let w = self.w();
                    self.x(format!("writer {} {}", w, hexs(&e)));
                }
            }
            10 | 11 => {
                if let Some(w) = ws.first() {
                    let (l, sd) = (self.wlen(), self.r.below(1 << 30));
                    self.x(format!("write {} {} {}", w, l, sd));
                    self.x(format!("flush {}", w));
                }
            }
            12 => {
                if let Some(w) = ws.first() {
                    self.x(format!("drop {}", w));
                }
            }
            13 => self.x("nfde".into()),
            14 => self.x(format!("occ {}", hexs(&e))),
            _ => {
                let m = self.r.below(12);
                self.x(format!("read {} {}", hexs(&e), m))
            }
        }
    }
}

pub fn run(profile: &str, seed: u64, events: usize) {
    let mut g = G {
        s: Sess::new(scratch_root(), seed),
        r: Rng::new(seed),
        p: profile.to_string(),
        nextw: 0,
        trk_last: 35,
    };
    let start = std::time::Instant::now();
    while g.s.events < events && start.elapsed().as_secs() < 240 {
        let pool = name_pool(&mut g.r);
        g.start();
        if !g.s.loadable() {
            continue;
        }
        if profile == "format" {
            // formatting in every state of the medium
            for _ in 0..3 {
                for _ in 0..6 {
                    g.step(&pool);
                }
                g.x("dropall".into());
                if g.r.chance(1, 3) {
                    g.x("format 5345564e5445454e43484152534c4f4e47 4142".into());
                }
                if g.r.chance(1, 3) {
                    let (a, b) = (g.r.below(100000), g.r.below(2));
                    g.x(format!("dirty {} {}", a, b));
                }
                g.format();
                if g.r.chance(1, 2) {
                    g.x("reopen 0 0".into());
                }
                match g.r.below(5) {
                    0 => g.x("create 41 2".into()),
                    3 => {
                        // until the directory grows
                        for i in 0..9 {
                            g.x(format!("create 42{:02x} 2", 48 + i));
                        }
                    }
                    1 | 2 => {
                        let w = g.w();
                        g.x(format!("createw {} 41 2", w));
                        let (l, sd) = (1000 + g.r.below(6000), g.r.below(1 << 30));
                        g.x(format!("write {} {} {}", w, l, sd));
                    }
                    _ => {}
                }
            }
            continue;
        }
        if g.r.chance(1, 4) {
            let sd = g.r.below(1 << 30);
            g.x(format!("junk {} 1", sd));
        }
        // base situations
        let small = g.s.kind == Kind::D64;
        match g.r.below(10) {
            0..=2 => {}
            3 | 4 => {
                let (k, p) = (g.r.below(7), g.r.below(3) + 1);
                if small || g.r.chance(1, 3) {
                    g.fill_to(k, p);
                }
            }
            5 => {
                let n = 6 + g.r.below(12);
                g.fragment(n)
            }
            6 => {
                // nearly full and fragmented
                g.fragment(8);
                let k = g.r.below(5);
                if small {
                    g.fill_to(k, 2);
                }
            }
            7 => {
                let n = 7 + g.r.below(3);
                for i in 0..n {
                    g.x(format!("create {} 1", hexs(format!("E{}", i).as_bytes())));
                }
            }
            8 => {
                if profile == "dir" || g.r.chance(1, 4) {
                    let l = g.r.below(10);
                    if small || profile == "dir" {
                        g.fill_dir(l);
                    }
                }
            }
            _ => {
                // one file of more than 255 blocks
                if g.r.chance(1, 2) {
                    let w = g.w();
                    g.x(format!("createw {} 424947 2", w));
                    let n = 254 * (250 + g.r.below(20)) + g.r.below(254);
                    let sd = g.r.below(1 << 30);
                    g.x(format!("write {} {} {}", w, n, sd));
                    g.x(format!("drop {}", w));
                }
            }
        }
        let n = 25 + g.r.below(40);
        if profile == "readonly" {
            for _ in 0..12 {
                g.step(&pool);
            }
            g.x("dropall".into());
            let how = g.r.below(2);
            g.x(format!("reopen 1 {}", how));
            for _ in 0..n {
                g.ro_step(&pool);
            }
            g.x("dropall".into());
            g.x(format!("reopen {} 0", g.r.0 % 2));
            continue;
        }
        for _ in 0..n {
            g.step(&pool);
            if g.s.dead {
                break;
            }
        }
        g.x("dropall".into());
        g.x("validate".into());
        let how = g.r.below(3);
        g.x(format!("reopen 0 {}", how));
    }
    g.s.shutdown();
}
