//! Disk images built byte by byte (well-formed and damaged) and everything the library says about them.
use crate::common::*;
use crate::fsdrv::*;
use cbm::disk::directory::Extra;
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::geos::{GEOSFileStructure, GEOSFileType, GEOSInfo};
use cbm::disk::{Disk, Id, ValidationError};
use cbm::{Petscii, Sprite};
use std::collections::BTreeSet;
use std::io::Write;

type L = (usize, usize);

pub struct Img {
    pub k: Kind,
    pub trk: usize,
    pub b: Vec<u8>,
    pub used: BTreeSet<L>,
    dirb: Vec<L>,
    slot: usize,
    border: Option<L>,
    bslot: usize,
    /// sectors worth damaging
    pub meta: Vec<L>,
    pub data: Vec<L>,
    /// positions (location, slot) of the entries
    pub ents: Vec<(L, usize)>,
}

impl Img {
    pub fn sec(&mut self, l: L) -> &mut [u8] {
        let o = offset(self.k, l.0, l.1);
        &mut self.b[o..o + 256]
    }
    pub fn base(k: Kind, trk: usize, rng: &mut Rng) -> Img {
        let mut d = mem_disk(k, trk, false).expect("disk");
        let n = rng.below(17);
        let nm: Vec<u8> = (0..n).map(|_| 0x41 + rng.below(26) as u8).collect();
        d.write_format(&Petscii::from_bytes(&nm), &Id::from_bytes(&[0x30 + rng.below(10) as u8, 0x41 + rng.below(26) as u8])).expect("format");
        let b = sectors_of(d.as_ref(), k, trk);
        let mut used = BTreeSet::new();
        let dt = k.dir();
        for s in 0..=k.first_dir_sector() {
            used.insert((dt, s));
        }
        if k == Kind::D71 {
            for s in 0..k.spt(53) {
                used.insert((53, s));
            }
        }
        let mut meta = vec![(dt, 0), (dt, k.first_dir_sector())];
        if k == Kind::D71 {
            meta.push((53, 0));
        }
        if k == Kind::D81 {
            meta.extend([(40, 1), (40, 2)]);
        }
        Img { k, trk, b, used, dirb: vec![(dt, k.first_dir_sector())], slot: 0, border: None, bslot: 0, meta, data: vec![], ents: vec![] }
    }
    pub fn take(&mut self, rng: &mut Rng) -> Option<L> {
        for _ in 0..400 {
            let t = 1 + rng.below(self.k.last());
            if t == self.k.dir() || (self.k == Kind::D71 && t == 53) {
                continue;
            }
            let s = rng.below(self.k.spt(t));
            if self.used.insert((t, s)) {
                return Some((t, s));
            }
        }
        None
    }
    /// Put a data stream on random blocks; each block's bytes beyond the data are junk.
    pub fn chain(&mut self, data: &[u8], rng: &mut Rng) -> Vec<L> {
        let n = std::cmp::max(1, (data.len() + 253) / 254);
        let ls: Vec<L> = (0..n).map(|_| self.take(rng).expect("room")).collect();
        let junk = if rng.chance(1, 3) { rng.next() as u8 } else { 0 };
        for i in 0..n {
            let part = &data[i * 254..std::cmp::min(data.len(), i * 254 + 254)];
            let nx = if i + 1 < n { (ls[i + 1].0 as u8, ls[i + 1].1 as u8) } else { (0, part.len() as u8 + 1) };
            let s = self.sec(ls[i]);
            for x in s.iter_mut() {
                *x = junk;
            }
            s[0] = nx.0;
            s[1] = nx.1;
            s[2..2 + part.len()].copy_from_slice(part);
        }
        self.data.extend_from_slice(&ls);
        ls
    }
    fn grow(&mut self, rng: &mut Rng) -> bool {
        let dt = self.k.dir();
        let free: Vec<usize> = (0..self.k.spt(dt)).filter(|s| !self.used.contains(&(dt, *s))).collect();
        if free.is_empty() {
            return false;
        }
        let s = *rng.pick(&free);
        let last = *self.dirb.last().unwrap();
        let l = self.sec(last);
        l[0] = dt as u8;
        l[1] = s as u8;
        let n = self.sec((dt, s));
        n[1] = 0xFF;
        self.used.insert((dt, s));
        self.dirb.push((dt, s));
        self.meta.push((dt, s));
        self.slot = 0;
        true
    }
    pub fn geos(&mut self, rng: &mut Rng) {
        let l = self.take(rng).expect("room");
        let h = self.sec((self.k.dir(), 0));
        h[0xAB] = l.0 as u8;
        h[0xAC] = l.1 as u8;
        h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        let b = self.sec(l);
        b[1] = 0xFF;
        self.border = Some(l);
        self.meta.push(l);
    }
    pub fn add(&mut self, e: &[u8; 30], border: bool, rng: &mut Rng) {
        let (l, i) = if border && self.border.is_some() && self.bslot < 8 {
            self.bslot += 1;
            (self.border.unwrap(), self.bslot - 1)
        } else {
            // leave scratched entries behind now and then
            while rng.chance(1, 6) {
                if self.slot == 8 && !self.grow(rng) {
                    return;
                }
                let l = *self.dirb.last().unwrap();
                let i = self.slot;
                let junk = rng.bytes(30);
                let s = self.sec(l);
                s[i * 32 + 2..i * 32 + 32].copy_from_slice(&junk);
                s[i * 32 + 2] &= 0x70;
                self.slot += 1;
            }
            if self.slot == 8 && !self.grow(rng) {
                return;
            }
            self.slot += 1;
            (*self.dirb.last().unwrap(), self.slot - 1)
        };
        let s = self.sec(l);
        s[i * 32 + 2..i * 32 + 32].copy_from_slice(e);
        self.ents.push((l, i));
    }
    fn set_count(&mut self, t: usize, c: u8) {
        if self.k == Kind::D81 {
            self.sec((40, if t <= 40 { 1 } else { 2 }))[16 + 6 * ((t - 1) % 40)] = c;
        } else if t <= 35 {
            self.sec((18, 0))[4 * t] = c;
        } else {
            self.sec((18, 0))[221 + t - 36] = c;
        }
    }
    pub fn set_bam(&mut self) {
        let k = self.k;
        for t in 1..=k.last() {
            let mut m: u64 = 0;
            for s in 0..k.spt(t) {
                if !self.used.contains(&(t, s)) {
                    m |= 1 << s;
                }
            }
            let c = m.count_ones() as u8;
            let mb = m.to_le_bytes();
            if k == Kind::D81 {
                let o = 16 + 6 * ((t - 1) % 40);
                let s = self.sec((40, if t <= 40 { 1 } else { 2 }));
                s[o] = c;
                s[o + 1..o + 6].copy_from_slice(&mb[..5]);
            } else if t <= 35 {
                let s = self.sec((18, 0));
                s[4 * t] = c;
                s[4 * t + 1..4 * t + 4].copy_from_slice(&mb[..3]);
            } else {
                self.sec((18, 0))[221 + t - 36] = c;
                self.sec((53, 0))[3 * (t - 36)..3 * (t - 36) + 3].copy_from_slice(&mb[..3]);
            }
        }
    }
}

fn ent(a: u8, first: L, nm: &[u8], x: &[u8; 9], size: usize) -> [u8; 30] {
    let mut e = [0u8; 30];
    e[0] = a;
    e[1] = first.0 as u8;
    e[2] = first.1 as u8;
    for i in 0..16 {
        e[3 + i] = *nm.get(i).unwrap_or(&0xA0);
    }
    e[19..28].copy_from_slice(x);
    e[28] = size as u8;
    e[29] = (size >> 8) as u8;
    e
}

fn uname(rng: &mut Rng, n: usize) -> Vec<u8> {
    let l = rng.below(14);
    let mut v = format!("{:X}", n + 16).into_bytes();
    for _ in 0..l {
        v.push(match rng.below(8) {
            0 => 0xA0,
            1 => rng.next() as u8,
            2 => 0x20,
            _ => 0x41 + rng.below(26) as u8,
        });
    }
    while v.last() == Some(&0xA0) {
        v.pop();
    }
    v
}

fn content(rng: &mut Rng, n: usize) -> Vec<u8> {
    if rng.chance(1, 2) {
        rng.payload(n)
    } else {
        let b = rng.next() as u8;
        (0..n).map(|i| b.wrapping_add((i / 7) as u8)).collect()
    }
}
/// A length with a liking for block boundaries.
fn length(rng: &mut Rng, blocks: usize) -> usize {
    let b = rng.below(blocks + 1) * 254;
    match rng.below(5) {
        0 => b,
        1 => b + 1,
        2 => (b + 253).min(blocks * 254),
        _ => rng.below(blocks * 254 + 1),
    }
}

/// Content of many blocks that takes little room in a trace.
fn thin(rng: &mut Rng, len: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < len {
        let b = rng.next() as u8;
        v.extend_from_slice(&rng.bytes(6));
        v.extend(std::iter::repeat(b).take(248));
    }
    v.truncate(len);
    v
}

/// The side sectors and the entry of a relative file; `defect` spoils one detail (0: none).
fn put_rel(g: &mut Img, ls: &[L], rl: usize, a: u8, nm: &[u8], junk: &[u8; 6], border: bool, defect: usize, rng: &mut Rng) {
    let ns = (ls.len() + 119) / 120;
    let ss: Vec<L> = (0..ns).map(|_| g.take(rng).expect("room")).collect();
    for i in 0..ns {
        let part: Vec<L> = ls[i * 120..std::cmp::min(ls.len(), i * 120 + 120)].to_vec();
        let nx = if i + 1 < ns { (ss[i + 1].0 as u8, ss[i + 1].1 as u8) } else { (0, (15 + 2 * part.len()) as u8) };
        let s = g.sec(ss[i]);
        s[0] = nx.0;
        s[1] = nx.1;
        s[2] = i as u8;
        s[3] = rl as u8;
        for (j, l) in ss.iter().take(6).enumerate() {
            s[4 + 2 * j] = l.0 as u8;
            s[5 + 2 * j] = l.1 as u8;
        }
        for (j, l) in part.iter().enumerate() {
            s[16 + 2 * j] = l.0 as u8;
            s[17 + 2 * j] = l.1 as u8;
        }
    }
    let mut x = [0u8; 9];
    x[0] = ss[0].0 as u8;
    x[1] = ss[0].1 as u8;
    x[2] = rl as u8;
    x[3..9].copy_from_slice(junk);
    let which = ss[rng.below(ns)];
    let end = *ls.last().unwrap();
    match defect {
        0 => {}
        // the list of side sectors
        1 => g.sec(which)[5 + 2 * rng.below(ns)] ^= 1,
        2 if ns < 6 => {
            let o = 4 + 2 * (ns + rng.below(6 - ns));
            let s = g.sec(which);
            s[o] = ss[0].0 as u8;
            s[o + 1] = ss[0].1 as u8;
        }
        3 => {
            let o = 4 + 2 * rng.below(ns);
            g.sec(which)[o] = 0;
        }
        4 if ns > 1 => {
            let s = g.sec(which);
            for i in 0..2 {
                s.swap(4 + i, 6 + i);
            }
        }
        // the size of the last side sector
        5 => {
            let s = g.sec(ss[ns - 1]);
            s[1] = s[1].wrapping_add(1);
        }
        6 => {
            let b = rng.below(15) as u8;
            g.sec(ss[ns - 1])[1] = b;
        }
        7 => x[2] = 0,
        // the last data block
        8 => {
            let n = g.sec(ls[0])[0].max(1);
            g.sec(end)[0] = n;
        }
        9 => {
            let d = if rng.chance(1, 2) { 1 } else { 255 };
            let s = g.sec(end);
            s[1] = s[1].wrapping_add(d);
        }
        10 => g.sec(end)[1] = 0,
        // the chain of side sectors
        11 => {
            let s = g.sec(ss[ns - 1]);
            s[0] = ss[0].0 as u8;
            s[1] = ss[0].1 as u8;
        }
        12 => {
            let s = g.sec(ss[ns - 1]);
            s[0] = 99;
        }
        // a listed data block
        13 => {
            let i = rng.below(ls.len().min(120));
            let s = g.sec(ss[0]);
            s[16 + 2 * i] = 99;
        }
        14 => {
            let i = rng.below(ls.len().min(120));
            let s = g.sec(ss[0]);
            s[16 + 2 * i] = 0;
        }
        // one block listed too few or too many
        15 => {
            let s = g.sec(ss[ns - 1]);
            s[1] = s[1].wrapping_sub(2);
        }
        16 => {
            let s = g.sec(ss[ns - 1]);
            s[1] = s[1].wrapping_add(2);
        }
        // what nobody looks at
        17 => {
            let b = rng.bytes(2);
            let s = g.sec(which);
            s[2] = b[0];
            s[3] = b[1];
        }
        18 => x[2] = x[2].wrapping_add(1),
        _ => g.sec(which)[4 + 2 * rng.below(6)] = 0,
    }
    g.meta.extend_from_slice(&ss);
    g.add(&ent(a, ls[0], nm, &x, ls.len() + ns), border, rng);
}

/// An info block of a GEOS file.
fn put_info(g: &mut Img, a: u8, vlir: bool, rng: &mut Rng) -> L {
    let l = g.take(rng).expect("room");
    let mut b = rng.bytes(256);
    b[0] = 0;
    b[1] = 0xFF;
    b[2] = 3;
    b[3] = 21;
    b[4] = 0xBF;
    b[0x44] = a;
    b[0x46] = vlir as u8;
    if rng.chance(1, 2) {
        b[0x4D + rng.below(20)] = 0;
        b[0xA0 + rng.below(96)] = 0;
    }
    g.sec(l).copy_from_slice(&b);
    g.meta.push(l);
    l
}

pub fn build(rng: &mut Rng, focus: &str) -> Img {
    let k = *rng.pick(&[Kind::D64, Kind::D64, Kind::D71, Kind::D81]);
    let trk = match k {
        Kind::D64 => *rng.pick(&[35, 35, 40]),
        _ => k.last(),
    };
    let mut g = Img::base(k, trk, rng);
    let geos = focus == "geos" || rng.chance(1, 3);
    if geos {
        g.geos(rng);
    }
    let nf = rng.below(7) + 1;
    for n in 0..nf {
        let nm = uname(rng, n);
        let mut a: u8 = 0x80 | (1 + rng.below(3)) as u8;
        if rng.chance(1, 5) {
            a = (a & 0x0F) | (rng.below(16) as u8) << 4;
        }
        let kind = match focus {
            "rel" => *rng.pick(&["R", "R", "L"]),
            "geos" => *rng.pick(&["V", "V", "S", "L"]),
            _ => *rng.pick(&["L", "L", "R", "V", "S"]),
        };
        let border = geos && rng.chance(1, 5);
        match kind {
            "L" => {
                let c = { let n = length(rng, 4); content(rng, n) };
                let ls = g.chain(&c, rng);
                let mut x = [0u8; 9];
                if rng.chance(1, 4) {
                    for i in [0, 1, 4, 5, 6, 7, 8] {
                        x[i] = rng.next() as u8;
                    }
                    if rng.chance(1, 3) {
                        x[2] = 2 + rng.below(250) as u8;
                        x[3] = rng.next() as u8;
                    }
                }
                if rng.chance(1, 8) {
                    a = (a & 0xF0) | (5 + rng.below(11)) as u8;
                }
                if rng.chance(1, 10) {
                    a = 0x80 | (a & 0x70);
                }
                let sz = if rng.chance(1, 4) { rng.below(65536) } else { ls.len() };
                g.add(&ent(a, ls[0], &nm, &x, sz), border, rng);
            }
            "R" => {
                let big = rng.chance(1, 9);
                let huge = big && k != Kind::D64 && focus == "rel" && g.data.len() < 300 && rng.chance(1, 3);
                let rl = if rng.chance(1, 3) { *rng.pick(&[1, 2, 127, 128, 253, 254, 255]) } else { 1 + rng.below(255) };
                let maxb = if big { 121 + rng.below(250) } else { 6 };
                let mut spoil = 0;
                let mut len = { let n = length(rng, maxb); n - n % rl };
                if huge {
                    // six side sectors, filled or nearly, or one too many
                    let n = *rng.pick(&[590, 600, 601, 719, 720, 720, 720, 721, 730]) * 254;
                    len = n - n % rl;
                    if n == 720 * 254 && len > 719 * 254 {
                        // the last one, full, may link on
                        spoil = *rng.pick(&[0, 0, 11, 12, 1, 3, 4]);
                    }
                }
                if rng.chance(1, 8) {
                    // fill blocks exactly where possible
                    len = 254 * rl.min(maxb);
                    len -= len % rl;
                }
                let c = if big { thin(rng, len) } else { content(rng, len) };
                let mut ls = g.chain(&c, rng);
                if len == 0 && rng.chance(1, 2) {
                    ls.truncate(1);
                }
                let mut junk = [0u8; 6];
                if rng.chance(1, 4) {
                    junk.copy_from_slice(&rng.bytes(6));
                }
                put_rel(&mut g, &ls, rl, (a & 0xF0) | 4, &nm, &junk, border, spoil, rng);
            }
            _ => {
                let mut x = [0u8; 9];
                let mut total = 0;
                if !rng.chance(1, 6) {
                    let l = put_info(&mut g, a, kind == "V", rng);
                    x[0] = l.0 as u8;
                    x[1] = l.1 as u8;
                    total += 1;
                }
                x[2] = (kind == "V") as u8;
                x[3] = if kind == "V" && rng.chance(1, 9) { 0 } else { 1 + rng.below(17) as u8 };
                for i in 4..9 {
                    x[i] = rng.next() as u8;
                }
                let first;
                if kind == "S" {
                    let c = { let n = length(rng, 3); content(rng, n) };
                    let ls = g.chain(&c, rng);
                    total += ls.len();
                    first = ls[0];
                } else {
                    first = g.take(rng).expect("room");
                    total += 1;
                    let nr = if rng.chance(1, 12) {
                        [127, 127, 126, 101, 127 - rng.below(40)][rng.below(5)]
                    } else {
                        rng.below(9)
                    }
                    .min(127);
                    // an index with (nearly) every record present
                    let dense = nr > 20 && g.data.len() < 250 && rng.chance(1, 2);
                    let long = focus == "geos" && g.data.len() < 100 && !dense && (k != Kind::D64 || nr < 20) && rng.chance(1, 16);
                    let mut ix = vec![0u8; 256];
                    ix[1] = 0xFF;
                    for r in 0..nr {
                        let full = nr < 20 || dense || rng.chance(1, 12);
                        if full && (rng.chance(2, 3) || dense && !rng.chance(1, 40)) {
                            let c = if dense {
                                let n = length(rng, 1).min(254);
                                thin(rng, n)
                            } else if long && r < 2 {
                                let n = (253 + rng.below(5)) * 254 - rng.below(300);
                                thin(rng, n)
                            } else {
                                let n = length(rng, 2);
                                content(rng, n)
                            };
                            let ls = g.chain(&c, rng);
                            total += ls.len();
                            ix[2 + 2 * r] = ls[0].0 as u8;
                            ix[3 + 2 * r] = ls[0].1 as u8;
                        } else {
                            ix[3 + 2 * r] = 0xFF;
                        }
                    }
                    // a terminated index may be followed by anything
                    if nr < 120 && rng.chance(1, 3) {
                        for i in 4 + 2 * nr..256 {
                            ix[i] = rng.next() as u8;
                        }
                    }
                    g.sec(first).copy_from_slice(&ix);
                    g.meta.push(first);
                }
                g.add(&ent((a & 0xF0) | (a & 3), first, &nm, &x, total), border, rng);
            }
        }
    }
    g.set_bam();
    g
}

fn randloc(g: &Img, rng: &mut Rng) -> (u8, u8) {
    match rng.below(8) {
        0 => (rng.next() as u8, rng.next() as u8),
        1 => (0, rng.next() as u8),
        2 => *rng.pick(&[(0, 0), (0, 1), (0, 0xFF), (1, 0), (1, 21), (35, 17), (36, 0), (40, 16), (41, 0), (70, 17), (71, 0), (80, 39), (81, 0), (255, 255), (18, 0), (40, 0)]),
        3 | 4 if !g.data.is_empty() => {
            let l = *rng.pick(&g.data);
            (l.0 as u8, l.1 as u8)
        }
        5 => {
            let l = *rng.pick(&g.meta);
            (l.0 as u8, l.1 as u8)
        }
        _ => {
            let t = 1 + rng.below(g.trk);
            (t as u8, rng.below(g.k.spt(t)) as u8)
        }
    }
}

/// Damage the image a little; returns the sectors touched.
pub fn damage(g: &mut Img, rng: &mut Rng, how: usize) {
    for _ in 0..how {
        let r = randloc(g, rng);
        match rng.below(12) {
            11 if g.trk > g.k.last() && !g.data.is_empty() => {
                // a chain that leaves the tracks the map covers
                let t = g.k.last() + 1 + rng.below(g.trk - g.k.last());
                let o = (t, rng.below(g.k.spt(t)));
                let b = rng.bytes(255);
                let n = 1 + rng.below(255) as u8;
                let l = *rng.pick(&g.data);
                let s = g.sec(o);
                s[1..].copy_from_slice(&b);
                s[0] = 0;
                s[1] = n;
                let s = g.sec(l);
                s[0] = o.0 as u8;
                s[1] = o.1 as u8;
            }
            0 | 1 if !g.data.is_empty() => {
                let l = *rng.pick(&g.data);
                let s = g.sec(l);
                s[0] = r.0;
                s[1] = r.1;
            }
            2 => {
                let l = *rng.pick(&g.meta);
                let s = g.sec(l);
                s[0] = r.0;
                s[1] = r.1;
            }
            3 | 4 if !g.ents.is_empty() => {
                // a field of an entry
                let (l, i) = *rng.pick(&g.ents);
                let b = rng.next() as u8;
                let s = g.sec(l);
                match rng.below(5) {
                    0 => s[i * 32 + 2] = b,
                    1 => {
                        s[i * 32 + 3] = r.0;
                        s[i * 32 + 4] = r.1;
                    }
                    2 => {
                        s[i * 32 + 21] = r.0;
                        s[i * 32 + 22] = r.1;
                    }
                    3 => s[i * 32 + 23 + (b % 2) as usize] = (b >> 1) % 3,
                    _ => s[i * 32 + 2 + (b % 30) as usize] = r.1,
                }
            }
            5 | 6 => {
                // a location inside a metadata sector (index, side sector, directory)
                let l = *rng.pick(&g.meta);
                let o = rng.below(127) * 2 + 2;
                let s = g.sec(l);
                s[o] = r.0;
                s[o + 1] = r.1;
            }
            7 => {
                // the free-block map
                let t = 1 + rng.below(g.k.last());
                let b = rng.next() as u8;
                let bit = 1u8 << rng.below(8);
                let (l, o) = if g.k == Kind::D81 { ((40, if t <= 40 { 1 } else { 2 }), 16 + 6 * ((t - 1) % 40) + rng.below(6)) } else if t <= 35 { ((18, 0), 4 * t + rng.below(4)) } else { ((53, 0), 3 * (t - 36) + rng.below(3)) };
                let s = g.sec(l);
                if rng.chance(1, 2) {
                    s[o] = b;
                } else {
                    s[o] ^= bit;
                }
            }
            8 => {
                let l = *rng.pick(&g.meta);
                let o = rng.below(256);
                let b = rng.next() as u8;
                g.sec(l)[o] = b;
            }
            9 if rng.chance(1, 6) => {
                let l = *rng.pick(&g.meta);
                let b = rng.bytes(256);
                let keep = rng.chance(1, 2);
                let s = g.sec(l);
                let link = (s[0], s[1]);
                s.copy_from_slice(&b);
                if keep {
                    s[0] = link.0;
                    s[1] = link.1;
                }
            }
            10 => {
                // GEOS header and border
                let hd = (g.k.dir(), 0);
                let s = g.sec(hd);
                s[0xAB] = r.0;
                s[0xAC] = r.1;
                s[0xAD..0xAD + 11].copy_from_slice(b"GEOS format");
            }
            _ => {
                if !g.data.is_empty() {
                    let l = *rng.pick(&g.data);
                    g.sec(l)[1] = r.1;
                }
            }
        }
    }
}
/// Bookkeeping damage only: the map disagrees with the files.
pub fn damage_map(g: &mut Img, rng: &mut Rng, how: usize) {
    for _ in 0..how {
        let l = match rng.below(4) {
            0 if !g.data.is_empty() => *rng.pick(&g.data),
            1 => *rng.pick(&g.meta),
            _ => {
                let t = 1 + rng.below(g.k.last());
                (t, rng.below(g.k.spt(t)))
            }
        };
        if !g.used.remove(&l) {
            g.used.insert(l);
        }
    }
    g.set_bam();
    // stored counts that disagree with the bits
    if rng.chance(1, 2) {
        for _ in 0..1 + rng.below(6) {
            let l = if rng.chance(1, 2) || g.meta.is_empty() { 1 + rng.below(g.k.last()) } else { rng.pick(&g.meta).0 };
            let c = *rng.pick(&[0, 0, 1, g.k.spt(l) as u8 - 1, g.k.spt(l) as u8, 255]);
            g.set_count(l, c);
        }
    }
}

// ---------------------------------------------------------------- observing
pub fn jsec(b: &[u8]) -> String {
    // the bytes without the trailing run of one value, and that value
    let f = *b.last().unwrap_or(&0);
    let mut n = b.len();
    while n > 0 && b[n - 1] == f {
        n -= 1;
    }
    format!("[{},{}]", f, jbytes(&b[..n]))
}
fn diff(k: Kind, trk: usize, a: &[u8], b: &[u8]) -> String {
    let v: Vec<String> = all_locs(k, trk)
        .into_iter()
        .enumerate()
        .filter(|(i, _)| a[i * 256..i * 256 + 256] != b[i * 256..i * 256 + 256])
        .map(|(i, (t, s))| format!("[{},{}]", t * 256 + s, jsec(&b[i * 256..i * 256 + 256])))
        .collect();
    jlist(&v)
}
fn rb(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(v) => format!("{{\"res\":\"ok\",\"b\":{}}}", jbytes(v)),
        Err(e) => format!("{{\"res\":\"{}\",\"b\":[]}}", e),
    }
}
fn rl(r: &Result<Vec<i64>, String>) -> String {
    match r {
        Ok(v) => format!("{{\"res\":\"ok\",\"b\":{}}}", jints(v)),
        Err(e) => format!("{{\"res\":\"{}\",\"b\":[]}}", e),
    }
}
fn gs(s: &cbm::disk::geos::GEOSInfo, which: usize) -> Vec<u8> {
    let mut b = vec![0u8; [20, 20, 20, 96][which]];
    match which {
        0 => s.class.to_bytes(&mut b),
        1 => s.author.to_bytes(&mut b),
        2 => s.application.to_bytes(&mut b),
        _ => s.description.to_bytes(&mut b),
    }
    b
}
fn info_json(i: &GEOSInfo) -> String {
    let mut ic = vec![0u8; 63];
    i.icon.to_bytes(&mut ic);
    let mut enc = vec![0x55u8; 256];
    i.to_bytes(&mut enc);
    let mut j = J::obj();
    j.s("res", "ok").b("some", true).bytes("ic", &ic).i("a", i.file_attributes.to_byte() as i64);
    j.i("ty", i.geos_file_type.to_byte() as i64).s("tn", &i.geos_file_type.to_string());
    j.i("st", i.structure.to_byte() as i64).s("sn", &i.structure.to_string());
    j.i("ld", i.program_load_address as i64).i("en", i.program_end_address as i64).i("sa", i.program_start_address as i64);
    j.bytes("cl", &gs(i, 0)).bytes("au", &gs(i, 1)).bytes("ap", &gs(i, 2)).bytes("rs", &i.reserved).bytes("ds", &gs(i, 3));
    j.bytes("enc", &enc);
    j.end()
}

pub struct View {
    pub k: Kind,
    pub trk: usize,
    pub d: Box<dyn Disk>,
    pub last: Vec<u8>,
}

impl View {
    pub fn load(g: &Img, dmg: usize) -> Option<View> {
        let mut d = mem_disk(g.k, g.trk, false).expect("disk");
        for (i, (t, s)) in all_locs(g.k, g.trk).into_iter().enumerate() {
            let l = loc!(d, t, s);
            d.write_sector(l, &g.b[i * 256..i * 256 + 256]).expect("write_sector");
        }
        let r = guard("initialize", || d.initialize());
        let mut ix = vec![];
        let mut secs = vec![];
        for i in 0..nsectors(g.k, g.trk) {
            let b = &g.b[i * 256..i * 256 + 256];
            if b.iter().all(|x| *x == 0) {
                ix.push(0);
            } else {
                secs.push(jsec(b));
                ix.push(secs.len());
            }
        }
        let mut j = J::new("img");
        j.s("k", g.k.name()).i("trk", g.trk as i64).i("dmg", dmg as i64).raw("ix", &jints(&ix)).raw("secs", &jlist(&secs));
        let res = match r {
            Err(e) => e,
            Ok(_) => call("header", || d.header().map(|_| ())).map(|_| "ok".to_string()).unwrap_or_else(|e| e),
        };
        j.s("res", &res);
        emit(j.end());
        if res == "panic" {
            return None;
        }
        Some(View { k: g.k, trk: g.trk, d, last: g.b.clone() })
    }
    /// what changed in the image since last time
    pub fn chg(&mut self) -> String {
        let now = sectors_of(self.d.as_ref(), self.k, self.trk);
        let s = diff(self.k, self.trk, &self.last, &now);
        self.last = now;
        s
    }
    pub fn mbam(&self) -> String {
        match mem_bam(self.d.as_ref(), self.k) {
            Ok(v) => jlist(
                &v.iter()
                    .enumerate()
                    .map(|(i, (c, m))| format!("[{},{},{}]", i + 1, c, jbytes(&m.to_le_bytes()[..if self.k == Kind::D81 { 5 } else { 3 }])))
                    .collect::<Vec<_>>(),
            ),
            Err(_) => "[]".into(),
        }
    }
    pub fn meta(&mut self) {
        let mut j = J::new("meta");
        j.raw("hd", &header_json(self.d.as_ref())).raw("m", &self.mbam());
        let bf = call("blocks_free", || self.d.blocks_free());
        match bf {
            Ok(n) => j.s("bres", "ok").i("bf", n as i64),
            Err(e) => j.s("bres", &e).i("bf", -1),
        };
        let r = call("directory", || self.d.directory());
        match &r {
            Ok(v) => j.s("res", "ok").raw("ls", &jlist(&v.iter().map(entry_json).collect::<Vec<_>>())),
            Err(e) => j.s("res", e).raw("ls", "[]"),
        };
        let c = self.chg();
        j.raw("chg", &c);
        emit(j.end());
    }
    pub fn validate(&mut self) {
        let r = call("validate", || self.d.validate());
        let mut j = J::new("val");
        match &r {
            Ok(v) => {
                let mut er = vec![];
                for e in v {
                    er.push(match e {
                        ValidationError::SystemSectorNotAllocated(l) => format!("[\"S\",{},[],[]]", l2i(l.0, l.1)),
                        ValidationError::SectorMisallocated(l) => format!("[\"A\",{},[],[]]", l2i(l.0, l.1)),
                        ValidationError::SectorMisoccupied(l, n) => format!("[\"O\",{},{},[]]", l2i(l.0, l.1), jbytes(n.as_bytes())),
                        ValidationError::SectorOveroccupied(l, a, b) => format!("[\"2\",{},{},{}]", l2i(l.0, l.1), jbytes(a.as_bytes()), jbytes(b.as_bytes())),
                        ValidationError::FileScanError(_, n) => format!("[\"F\",0,{},[]]", jbytes(n.as_bytes())),
                        ValidationError::Unknown => "[\"U\",0,[],[]]".to_string(),
                    });
                }
                j.s("res", "ok").raw("er", &jlist(&er));
            }
            Err(e) => {
                j.s("res", e).raw("er", "[]");
            }
        }
        let c = self.chg();
        j.raw("chg", &c).raw("m", &self.mbam());
        emit(j.end());
    }
    pub fn file(&mut self, idx: usize, rng: &mut Rng, samples: usize) {
        let ents = match call("directory", || self.d.directory()) {
            Ok(v) => v,
            Err(_) => return,
        };
        if idx >= ents.len() {
            return;
        }
        let e = &ents[idx];
        let mut j = J::new("file");
        j.i("p", e.position.map(|p| l2i(p.location.0, p.location.1) * 8 + (p.offset / 32) as i64).unwrap_or(-1));
        let byname = call("find", || self.d.find_directory_entry(&e.filename));
        match byname {
            Ok(x) => j.i("bn", x.position.map(|p| l2i(p.location.0, p.location.1) * 8 + (p.offset / 32) as i64).unwrap_or(-1)),
            Err(_) => j.i("bn", -2),
        };
        let f = match call("open", || self.d.open_file_from_entry(e)) {
            Ok(f) => f,
            Err(x) => {
                j.s("res", &x);
                emit(j.end());
                return;
            }
        };
        j.s("res", "ok");
        let rc = call("record_count", || f.record_count());
        let n = *rc.as_ref().unwrap_or(&0);
        match &rc {
            Ok(n) => j.s("rcres", "ok").i("rc", *n as i64),
            Err(x) => j.s("rcres", x).i("rc", 0),
        };
        let mut idxs = vec![n, n + 1 + rng.below(1000)];
        if n > 0 {
            idxs.push(0);
            idxs.push(n - 1);
            for _ in 0..samples {
                idxs.push(rng.below(n));
            }
        }
        idxs.sort();
        idxs.dedup();
        let recs: Vec<String> = idxs
            .iter()
            .map(|i| {
                let r = call("record", || f.record(*i));
                match r {
                    Ok(v) => format!("{{\"i\":{},\"res\":\"ok\",\"b\":{}}}", i, jbytes(&v)),
                    Err(x) => format!("{{\"i\":{},\"res\":\"{}\",\"b\":[]}}", i, x),
                }
            })
            .collect();
        j.raw("recs", &jlist(&recs));
        let mode = rng.below(12);
        let rd = match call("reader", || f.reader()) {
            Ok(mut r) => read_all(&mut *r, mode, rng),
            Err(x) => Err(x),
        };
        j.raw("rd", &rb(&rd));
        // a writer positions itself at the end of the file; it is not used (nor dropped, which would flush)
        let wr = call("writer", || f.writer()).map(|w| std::mem::forget(w));
        j.s("wr", &wr.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
        let occ = call("occupied", || f.occupied_sectors()).map(|v| v.iter().map(|l| l2i(l.0, l.1)).collect::<Vec<_>>());
        j.raw("occ", &rl(&occ));
        let (cvt, mode2) = match f {
            File::GEOSSequential(ref g) | File::GEOSVLIR(ref g) => {
                let m = rng.below(12);
                (
                    match call("cvt", || g.reader()) {
                        Ok(mut r) => read_all(&mut r, m, rng),
                        Err(x) => Err(x),
                    },
                    m,
                )
            }
            _ => (Err("na".into()), 0),
        };
        j.raw("cvt", &rb(&cvt)).i("mode", mode2 as i64);
        let info = call("info", || f.geos_info());
        match &info {
            Ok(Some(i)) => j.raw("info", &info_json(i)),
            Ok(None) => j.raw("info", "{\"res\":\"ok\",\"some\":false}"),
            Err(x) => j.raw("info", &format!("{{\"res\":\"{}\",\"some\":false}}", x)),
        };
        let mut sink = vec![];
        let det = call("details", || f.details(&mut sink, 1)).map(|_| "ok".to_string()).unwrap_or_else(|e| e);
        j.s("det", &det);
        let c = self.chg();
        j.raw("chg", &c);
        emit(j.end());
    }
    fn pos(&self, idx: usize) -> Option<(cbm::disk::directory::DirectoryEntry, i64)> {
        let v = call("directory", || self.d.directory()).ok()?;
        let e = v.get(idx)?.clone();
        let p = e.position.map(|p| l2i(p.location.0, p.location.1) * 8 + (p.offset / 32) as i64)?;
        Some((e, p))
    }
    pub fn delete(&mut self, idx: usize) {
        if let Some((e, p)) = self.pos(idx) {
            let r = call("delete", || self.d.open_file_from_entry(&e)?.delete());
            let mut j = J::new("del");
            j.i("p", p).s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
            let c = self.chg();
            j.raw("chg", &c).raw("m", &self.mbam());
            emit(j.end());
        }
    }
    /// Change some fields of an entry and write it back.
    pub fn write_entry(&mut self, idx: usize, rng: &mut Rng) {
        if let Some((mut e, p)) = self.pos(idx) {
            let mut j = J::new("went");
            j.i("p", p);
            let mut set = J::obj();
            let what = rng.below(64);
            if what & 1 != 0 {
                let n = uname(rng, 100);
                set.bytes("nm", &n);
                e.filename = Petscii::from_bytes(&n);
            }
            if what & 2 != 0 {
                let a = rng.next() as u8;
                set.i("a", a as i64);
                e.file_attributes.file_type = ft(a & 15);
                e.file_attributes.unused_bit = a & 16 != 0;
                e.file_attributes.save_with_replace_flag = a & 32 != 0;
                e.file_attributes.locked_flag = a & 64 != 0;
                e.file_attributes.closed_flag = a & 128 != 0;
            }
            if what & 4 != 0 {
                let n = rng.next() as u16;
                set.i("sz", n as i64);
                e.file_size = n;
            }
            if what & 8 != 0 {
                let (a, b) = (rng.next() as u8, rng.next() as u8);
                set.i("f", l2i(a, b));
                e.first_sector.0 = a;
                e.first_sector.1 = b;
            }
            let mut xs = vec![];
            if what & 16 != 0 {
                // one byte field of the extra bytes
                let v = rng.next() as u8;
                let o = rng.below(9);
                match e.extra {
                    Extra::Linear(ref mut x) => {
                        x.unused[o] = v;
                        xs.push((o, v));
                    }
                    Extra::Relative(ref mut x) => {
                        match o {
                            0 => x.first_side_sector.0 = v,
                            1 => x.first_side_sector.1 = v,
                            2 => x.record_length = v,
                            _ => x.unused[o - 3] = v,
                        }
                        xs.push((o, v));
                    }
                    Extra::GEOS(ref mut x) => {
                        match o {
                            0 => x.info_block.0 = v,
                            1 => x.info_block.1 = v,
                            2 => x.structure = GEOSFileStructure::from_byte(v),
                            3 => x.geos_file_type = GEOSFileType::from_byte(v),
                            4 => x.year = v,
                            5 => x.month = v,
                            6 => x.day = v,
                            7 => x.hour = v,
                            _ => x.minute = v,
                        }
                        xs.push((o, v));
                    }
                }
            }
            set.raw("x", &jlist(&xs.iter().map(|(o, v)| format!("[{},{}]", o, v)).collect::<Vec<_>>()));
            let set = set.end();
            j.raw("set", &set);
            let r = call("write_directory_entry", || self.d.write_directory_entry(&e));
            j.s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
            let c = self.chg();
            j.raw("chg", &c);
            emit(j.end());
        }
    }
    pub fn write_header(&mut self, rng: &mut Rng) {
        let what = rng.below(32);
        let mut set = J::obj();
        let mut j = J::new("whd");
        let n: Vec<u8> = { let n = rng.below(17); rng.bytes(n) };
        let id = [rng.next() as u8, rng.next() as u8];
        let (v1, v2, v3) = (rng.next() as u8, rng.next() as u8, rng.next() as u8);
        let r = call("header", || {
            {
                let h = self.d.header_mut()?;
                if what & 1 != 0 {
                    h.disk_name = Petscii::from_bytes(&n);
                    set.bytes("nm", &n);
                }
                if what & 2 != 0 {
                    h.disk_id = Id::from_bytes(&id);
                    set.bytes("id", &id);
                }
                if what & 4 != 0 {
                    h.disk_format_type = v1;
                    set.i("ft", v1 as i64);
                }
                if what & 8 != 0 {
                    h.directory_dos_version = v2;
                    set.i("dv", v2 as i64);
                }
                if what & 16 != 0 {
                    h.directory_format_type = v3;
                    set.i("df", v3 as i64);
                }
            }
            self.d.flush_header()
        });
        j.raw("set", &set.end()).s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
        let c = self.chg();
        j.raw("chg", &c);
        emit(j.end());
        let _ = guard("initialize", || self.d.initialize());
    }
    pub fn bam_edit(&mut self, rng: &mut Rng) {
        let t = 1 + rng.below(self.k.last());
        let s = rng.below(self.k.spt(t));
        let fr = rng.chance(1, 2);
        let r = call("bam", || {
            let b = self.d.bam()?;
            let mut b = b.borrow_mut();
            let l = loc!(self.d, t, s);
            if fr {
                b.free(l)?;
            } else {
                b.allocate(l)?;
            }
            b.flush()
        });
        let mut j = J::new("bal");
        j.i("l", (t * 256 + s) as i64).b("fr", fr).s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
        let c = self.chg();
        j.raw("chg", &c).raw("m", &self.mbam());
        emit(j.end());
    }
    /// Anything else a program may try: it has to come back.
    pub fn misc(&mut self, rng: &mut Rng) {
        let what = rng.below(10);
        let nn = 200 + rng.below(40);
        let nm = Petscii::from_bytes(&uname(rng, nn));
        let names: Vec<Petscii> = call("directory", || self.d.directory()).map(|v| v.iter().map(|e| e.filename.clone()).collect()).unwrap_or_default();
        let some = if names.is_empty() { nm.clone() } else { rng.pick(&names).clone() };
        let (w, r): (&str, Result<(), String>) = match what {
            0 | 1 => ("create", call("create", || {
                let sch = Scheme::Linear;
                let n = rng.below(1500);
                let f = self.d.create_file(&nm, ft(1 + rng.below(3) as u8), sch)?;
                let mut w = f.writer()?;
                w.write_all(&rng.bytes(n))?;
                w.flush()
            })),
            2 | 3 => ("append", call("append", || {
                let f = self.d.open_file(&some)?;
                let n = rng.below(1500);
                let mut w = f.writer()?;
                w.write_all(&rng.bytes(n))?;
                w.flush()
            })),
            4 => ("rename", call("rename", || self.d.rename(&some, &nm))),
            5 => ("dump", call("dump", || {
                let mut v = vec![];
                self.d.open_file(&some)?.dump(&mut v)
            })),
            6 => ("ddump", call("ddump", || {
                let mut v = vec![];
                self.d.dump(&mut v)
            })),
            7 => ("fmt", call("fmt", || {
                let a = format!("{:?} {}", self.d.name(), self.d);
                let b = match self.d.header() { Ok(h) => format!("{:?}", h), Err(_) => String::new() };
                let c = match self.d.bam() { Ok(h) => format!("{:?}", h.borrow()), Err(_) => String::new() };
                let mut n = a.len() + b.len() + c.len();
                for e in self.d.iter() {
                    n += format!("{} {:#} {:?}", e.as_ref().map(|e| e.to_string()).unwrap_or_default(), match e { Ok(ref e) => e.to_string(), _ => String::new() }, e.map(|e| format!("{:?}", e)).unwrap_or_default()).len();
                }
                if n == 1 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")) }
                Ok(())
            })),
            8 => ("nfde", call("nfde", || self.d.next_free_directory_entry().map(|_| ()))),
            _ => ("deln", call("deln", || self.d.open_file(&some)?.delete())),
        };
        let mut j = J::new("misc");
        j.s("what", w).s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
        let c = self.chg();
        j.raw("chg", &c);
        emit(j.end());
    }
}

impl View {
    /// the hex dump of one file
    pub fn fdump(&mut self, idx: usize) {
        if let Some((e, p)) = self.pos(idx) {
            let mut j = J::new("fdump");
            j.i("p", p);
            let mut out = vec![];
            let r = call("fdump", || self.d.open_file_from_entry(&e)?.dump(&mut out));
            j.s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e)).raw("lines", &jlines(&out));
            emit(j.end());
        }
    }
    /// the hex dump of the whole disk, through an image file with or without an error table
    pub fn ddump(&mut self, rng: &mut Rng) {
        let mut b = self.last.clone();
        let et = if rng.chance(1, 2) { rng.bytes(nsectors(self.k, self.trk)) } else { vec![] };
        b.extend_from_slice(&et);
        let path = scratch_root().join(format!("dump{}.{}", std::process::id(), self.k.name()));
        std::fs::write(&path, &b).expect("scratch image");
        let mut j = J::new("ddump");
        j.bytes("et", &et);
        let mut out = vec![];
        let r = call("ddump", || cbm::disk::open(&path, rng.chance(1, 2))?.dump(&mut out));
        let same = std::fs::read(&path).map(|x| x == b).unwrap_or(false);
        let _ = std::fs::remove_file(&path);
        j.s("res", &r.map(|_| "ok".to_string()).unwrap_or_else(|e| e)).b("same", same).raw("lines", &jlines(&out));
        emit(j.end());
    }
}

/// img FOCUS SEED EVENTS: focus is one of all, rel, geos, validate, codec, damage
pub fn run(focus: &str, seed: u64, events: usize) {
    let mut rng = Rng::new(seed);
    let lines = || OUT.lock().unwrap().as_ref().map(|o| o.lines).unwrap_or(0);
    let _ = Sprite::from_bytes(&[0u8; 63]);
    while lines() < events {
        let mut g = build(&mut rng, focus);
        // 0: intact, 1: only the map is wrong, 2: anything
        let dmg = match focus {
            "damage" => 2,
            "validate" => *rng.pick(&[0, 1, 1, 2]),
            "codec" => *rng.pick(&[0, 0, 1, 2]),
            _ => *rng.pick(&[0, 0, 0, 1, 2]),
        };
        match dmg {
            1 => {
                let n = 1 + rng.below(12);
                damage_map(&mut g, &mut rng, n);
            }
            2 => {
                let n = 1 + rng.below(6);
                damage(&mut g, &mut rng, n);
            }
            _ => {}
        }
        let mut v = match View::load(&g, dmg) {
            Some(v) => v,
            None => continue,
        };
        v.meta();
        let nent = call("directory", || v.d.directory()).map(|x| x.len()).unwrap_or(0);
        if focus == "dump" {
            for i in 0..nent.min(8) {
                v.fdump(i);
            }
            if rng.chance(1, 4) {
                v.ddump(&mut rng);
            }
            continue;
        }
        if focus != "codec" || rng.chance(1, 3) {
            v.validate();
            let n = if focus == "validate" { nent.min(1) } else { nent.min(9) };
            for i in 0..n {
                v.file(i, &mut rng, 3);
            }
        }
        let ops = match focus {
            "codec" => 6 + rng.below(8),
            "validate" => rng.below(3),
            _ => 2 + rng.below(4),
        };
        for _ in 0..ops {
            let n = call("directory", || v.d.directory()).map(|x| x.len()).unwrap_or(0);
            let i = if n == 0 { 0 } else { rng.below(n) };
            match (focus, rng.below(10)) {
                ("codec", 0..=5) => v.write_entry(i, &mut rng),
                ("codec", 6 | 7) => v.write_header(&mut rng),
                ("codec", 8) => v.bam_edit(&mut rng),
                ("damage", 0..=2) => v.misc(&mut rng),
                (_, 0..=6) => {
                    v.delete(i);
                    if rng.chance(1, 2) {
                        v.validate();
                    }
                }
                (_, 7) => v.bam_edit(&mut rng),
                _ => {
                    if dmg == 2 {
                        v.misc(&mut rng)
                    } else {
                        v.delete(i)
                    }
                }
            }
        }
        v.meta();
        if rng.chance(1, 3) {
            let nent = call("directory", || v.d.directory()).map(|x| x.len()).unwrap_or(0);
            for i in 0..nent.min(4) {
                v.file(i, &mut rng, 1);
            }
        }
    }
}

// ------------------------------------------- images described by a model
fn sample_name(i: usize) -> Vec<u8> {
    format!("F{}", i).into_bytes()
}

/// imgscript FILE SEED: every line describes an image of a small scope.
pub fn script(path: &str, seed: u64) {
    let text = std::fs::read_to_string(path).expect("script");
    let mut rng = Rng::new(seed);
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 3 {
            continue;
        }
        let k = Kind::parse(w[1]);
        let trk = if k == Kind::D64 { *rng.pick(&[35, 35, 35, 40]) } else { k.last() };
        let mut g = Img::base(k, trk, &mut rng);
        let mut dmg = 0;
        match w[0] {
            // chain K FORM l1,l2,.. f1,f2 u1,u2,..
            "chain" => {
                let num = |s: &str| -> Vec<usize> { s.split(',').map(|x| x.parse().unwrap()).collect() };
                let (ln, f, u) = (num(w[3]), num(w[4]), num(w[5]));
                dmg = 2;
                let bs: Vec<L> = ln.iter().map(|_| g.take(&mut rng).expect("room")).collect();
                for i in 0..ln.len() {
                    let c = rng.bytes(254);
                    let nx = match ln[i] {
                        100 => (0, 0),
                        101 => (0, 1),
                        102 => (0, 2),
                        103 => (0, 255),
                        200 => *rng.pick(&[(trk + 1, 0), (255, 255), (trk + 1, 5), (128, 0)]),
                        201 => {
                            let t = 1 + rng.below(trk);
                            (t, k.spt(t) + *rng.pick(&[0, 0, 1, 100]))
                        }
                        n => bs[n - 1],
                    };
                    let s = g.sec(bs[i]);
                    s[0] = nx.0 as u8;
                    s[1] = nx.1 as u8;
                    s[2..].copy_from_slice(&c);
                }
                let a = 0x81 + rng.below(3) as u8;
                let x = [0u8; 9];
                match w[2] {
                    "L" => {
                        for i in 0..f.len() {
                            g.add(&ent(a, bs[f[i] - 1], &sample_name(i), &x, rng.below(9)), false, &mut rng);
                        }
                    }
                    "S" => {
                        for i in 0..f.len() {
                            let mut x = x;
                            x[3] = 1 + rng.below(15) as u8;
                            if rng.chance(2, 3) {
                                let l = put_info(&mut g, a, false, &mut rng);
                                x[0] = l.0 as u8;
                                x[1] = l.1 as u8;
                            }
                            g.add(&ent(a, bs[f[i] - 1], &sample_name(i), &x, rng.below(9)), false, &mut rng);
                        }
                    }
                    _ => {
                        // both chains are records of one file
                        let mut x = x;
                        x[2] = 1;
                        x[3] = 1 + rng.below(15) as u8;
                        if rng.chance(4, 5) {
                            let l = put_info(&mut g, a, true, &mut rng);
                            x[0] = l.0 as u8;
                            x[1] = l.1 as u8;
                        }
                        let l = g.take(&mut rng).expect("room");
                        let s = g.sec(l);
                        s[1] = 0xFF;
                        for i in 0..f.len() {
                            s[2 + 2 * i] = bs[f[i] - 1].0 as u8;
                            s[3 + 2 * i] = bs[f[i] - 1].1 as u8;
                        }
                        g.add(&ent(a, l, &sample_name(0), &x, rng.below(9)), false, &mut rng);
                    }
                }
                for i in 0..u.len() {
                    if u[i] == 0 {
                        g.used.remove(&bs[i]);
                    }
                }
            }
            // geos K v:r,r,.. v:r ..      (record -1: no record; v 0: sequential)
            "geos" => {
                g.geos(&mut rng);
                for (i, d) in w[2..].iter().enumerate() {
                    let (v, r) = d.split_once(':').unwrap();
                    let v = v == "1";
                    let r: Vec<i64> = r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                    let a = 0x81 + rng.below(3) as u8;
                    let mut x = [0u8; 9];
                    let l = put_info(&mut g, a, v, &mut rng);
                    x[0] = l.0 as u8;
                    x[1] = l.1 as u8;
                    x[2] = v as u8;
                    x[3] = 1 + rng.below(15) as u8;
                    for y in x[4..].iter_mut() {
                        *y = rng.next() as u8;
                    }
                    let mut starts = vec![];
                    for n in &r {
                        if *n < 0 {
                            starts.push((0, 0xFF));
                        } else {
                            let c = rng.bytes(*n as usize);
                            starts.push(g.chain(&c, &mut rng)[0]);
                        }
                    }
                    let first = if v {
                        let l = g.take(&mut rng).expect("room");
                        let s = g.sec(l);
                        s[1] = 0xFF;
                        for (j, b) in starts.iter().enumerate() {
                            s[2 + 2 * j] = b.0 as u8;
                            s[3 + 2 * j] = b.1 as u8;
                        }
                        l
                    } else {
                        starts[0]
                    };
                    let sz = rng.below(300);
                    g.add(&ent(a, first, &sample_name(i), &x, sz), rng.chance(1, 5), &mut rng);
                }
            }
            // rel K rl:n:defect ..
            _ => {
                for (i, d) in w[2..].iter().enumerate() {
                    let v: Vec<usize> = d.split(':').map(|x| x.parse().unwrap()).collect();
                    let c = rng.bytes(v[0] * v[1]);
                    let ls = g.chain(&c, &mut rng);
                    if v[2] != 0 {
                        dmg = 2;
                    }
                    put_rel(&mut g, &ls, v[0], 0x84, &sample_name(i), &[0; 6], false, v[2], &mut rng);
                }
            }
        }
        g.set_bam();
        let mut v = match View::load(&g, dmg) {
            Some(v) => v,
            None => continue,
        };
        if rng.chance(1, 3) {
            v.meta();
        }
        v.validate();
        let n = call("directory", || v.d.directory()).map(|x| x.len()).unwrap_or(0);
        for i in 0..n {
            v.file(i, &mut rng, 2);
        }
        let dels = if w[0] == "chain" { n } else { 1 };
        for _ in 0..dels {
            let n = call("directory", || v.d.directory()).map(|x| x.len()).unwrap_or(0);
            if n > 0 {
                v.delete(rng.below(n));
            }
        }
        if rng.chance(1, 2) {
            v.validate();
        }
    }
}
