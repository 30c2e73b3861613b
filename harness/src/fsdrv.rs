//! File-system histories: executes commands on a real disk and records, after each one, everything
//! that can be observed (raw image bytes, in-memory free map, listing, header, results).

use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::path::PathBuf;

use cbm::disk::directory::{DirectoryEntry, Extra, FileType};
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, Id};
use cbm::Petscii;

use crate::common::*;

pub fn hexs(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn strip(n: &[u8]) -> Vec<u8> {
    let mut v = n.to_vec();
    while v.last() == Some(&0xA0) {
        v.pop();
    }
    v
}
pub fn ft(n: u8) -> FileType {
    match n {
        0 => FileType::DEL,
        1 => FileType::SEQ,
        2 => FileType::PRG,
        3 => FileType::USR,
        4 => FileType::REL,
        b => FileType::Unknown(b),
    }
}
pub fn ftn(t: FileType) -> u8 {
    match t {
        FileType::DEL => 0,
        FileType::SEQ => 1,
        FileType::PRG => 2,
        FileType::USR => 3,
        FileType::REL => 4,
        FileType::Unknown(b) => b,
    }
}
pub fn attr_of(e: &DirectoryEntry) -> u8 {
    let a = &e.file_attributes;
    ftn(a.file_type)
        | (a.unused_bit as u8) << 4
        | (a.save_with_replace_flag as u8) << 5
        | (a.locked_flag as u8) << 6
        | (a.closed_flag as u8) << 7
}
pub fn scheme_s(e: &DirectoryEntry) -> &'static str {
    match e.scheme {
        Scheme::Linear => "L",
        Scheme::Relative => "R",
        Scheme::GEOSSequential => "S",
        Scheme::GEOSVLIR => "V",
    }
}
pub fn extra_bytes(e: &DirectoryEntry) -> Vec<u8> {
    // Field by field, not through the library's own encoder.
    match e.extra {
        Extra::Linear(ref x) => x.unused.clone(),
        Extra::Relative(ref x) => {
            let mut v = vec![x.first_side_sector.0, x.first_side_sector.1, x.record_length];
            v.extend_from_slice(&x.unused);
            v
        }
        Extra::GEOS(ref x) => vec![
            x.info_block.0,
            x.info_block.1,
            x.structure.to_byte(),
            x.geos_file_type.to_byte(),
            x.year,
            x.month,
            x.day,
            x.hour,
            x.minute,
        ],
    }
}
pub fn entry_json(e: &DirectoryEntry) -> String {
    let mut j = J::obj();
    j.bytes("nm", e.filename.as_bytes());
    j.i("a", attr_of(e) as i64);
    j.i("f", l2i(e.first_sector.0, e.first_sector.1));
    j.i("sz", e.file_size as i64);
    let p = match e.position {
        Some(p) => l2i(p.location.0, p.location.1) * 8 + (p.offset / 32) as i64,
        None => -1,
    };
    j.i("p", p);
    j.s("sc", scheme_s(e));
    j.bytes("x", &extra_bytes(e));
    j.b("bd", e.is_geos_border());
    j.end()
}
pub fn listing_json(d: &dyn Disk) -> String {
    match call("directory", || d.directory()) {
        Ok(v) => jlist(&v.iter().map(entry_json).collect::<Vec<_>>()),
        Err(e) => format!("[{{\"nm\":[0],\"a\":-1,\"f\":-1,\"sz\":-1,\"p\":-1,\"sc\":\"{}\",\"x\":[],\"bd\":false}}]", e),
    }
}
pub fn header_json(d: &dyn Disk) -> String {
    let r = call("header", || {
        let h = d.header()?;
        let mut j = J::obj();
        j.bytes("nm", h.disk_name.as_bytes());
        j.bytes("id", h.disk_id.as_ref());
        j.i("ft", h.disk_format_type as i64);
        j.i("dv", h.directory_dos_version as i64);
        j.i("df", h.directory_format_type as i64);
        j.i("fd", l2i(h.first_directory_sector.0, h.first_directory_sector.1));
        j.i("g", match h.geos {
            Some(ref g) => l2i(g.border.0, g.border.1),
            None => 0,
        });
        Ok(j.end())
    });
    r.unwrap_or_else(|e| {
        format!("{{\"nm\":[],\"id\":[],\"ft\":-1,\"dv\":-1,\"df\":-1,\"fd\":-1,\"g\":-1,\"err\":\"{}\"}}", e)
    })
}
/// The in-memory free map: per track (count, bitmap).
pub fn mem_bam(d: &dyn Disk, k: Kind) -> Result<Vec<(u8, u64)>, String> {
    call("bam", || {
        let b = d.bam()?;
        let b = b.borrow();
        let mut v = vec![];
        for t in 1..=k.last() {
            let e = b.entry(t as u8)?;
            v.push((e.free_sectors, e.sector_map));
        }
        Ok(v)
    })
}
pub const CAP: usize = 3_000_000;
/// Read a whole file with the given read pattern.
pub fn read_file(f: &File, mode: usize, rng: &mut Rng) -> Result<Vec<u8>, String> {
    if mode == 0 {
        return call("record", || f.record(0));
    }
    let mut r = call("reader", || f.reader())?;
    read_all(&mut *r, mode, rng)
}
pub fn read_all(r: &mut dyn Read, mode: usize, rng: &mut Rng) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    if mode == 7 {
        // read_to_end, bounded
        let mut lim = r.take(CAP as u64);
        call("read_to_end", || lim.read_to_end(&mut v))?;
        if v.len() >= CAP {
            return Err("overrun".into());
        }
        return Ok(v);
    }
    let mut zeros = 0;
    let fixed = 1 + if rng.chance(1, 2) { 248 + rng.below(12) } else { rng.below(520) };
    loop {
        let n = match mode {
            1 => 1,
            2 => 7,
            3 => 254,
            4 => 256,
            5 => 1000,
            8 => 253,
            9 => 508,
            10 => fixed,
            _ => match rng.below(8) {
                // up to around the end of a block
                6 | 7 => (254 - v.len() % 254 + 254 * rng.below(3) + rng.below(5)).saturating_sub(2),
                0 => 0,
                1 => 1,
                2 => 254,
                3 => rng.below(20) + 1,
                4 => rng.below(600) + 1,
                _ => rng.below(3000) + 1,
            },
        };
        let mut buf = vec![0u8; n];
        let got = call("read", || r.read(&mut buf))?;
        if got > n {
            return Err("overrun".into());
        }
        v.extend_from_slice(&buf[..got]);
        if mode == 11 && zeros == 0 && rng.chance(1, 6) {
            // the rest at once
            let mut rest = vec![];
            call("read_to_end", || r.read_to_end(&mut rest))?;
            v.extend_from_slice(&rest);
            return Ok(v);
        }
        if n > 0 && got == 0 {
            zeros += 1;
            if zeros >= 2 {
                return Ok(v);
            }
        } else if got > 0 {
            if zeros > 0 {
                // data after end of file
                return Err("dataaftereof".into());
            }
        }
        if v.len() > CAP {
            return Err("overrun".into());
        }
    }
}

struct Crash {
    n: usize,
    img: Vec<u8>,
}
static CRASH: std::sync::Mutex<Crash> = std::sync::Mutex::new(Crash { n: 0, img: vec![] });

pub struct Sess {
    armed: Option<(String, Vec<Vec<u8>>)>,
    pub kind: Kind,
    pub trk: usize,
    pub err: bool,
    pub border: Option<(usize, usize)>,
    pub path: Option<PathBuf>,
    pub ro: bool,
    pub disk: Option<Box<dyn Disk>>,
    prev: Vec<u8>,
    pmb: Vec<(u8, u64)>,
    pub pbf: i64,
    pls: String,
    phd: String,
    pub writers: BTreeMap<u32, (Box<dyn Write>, Vec<u8>)>,
    pub len: BTreeMap<Vec<u8>, usize>,
    saved: BTreeMap<u32, (Vec<u8>, BTreeMap<Vec<u8>, usize>, Option<(usize, usize)>, Kind, usize, bool, String, String)>,
    /// File objects kept open across operations, by the name their file has now.
    pub kept: BTreeMap<Vec<u8>, File>,
    /// Writers that have flushed everything and are not used any more, but not closed.
    pub parked: Vec<Box<dyn Write>>,
    flushed: bool,
    /// A reader in the middle of a file: name, reader, bytes so far, whether it ended.
    reading: Option<(Vec<u8>, Box<dyn Read>, Vec<u8>)>,
    pub scratch: PathBuf,
    serial: usize,
    pub dead: bool,
    pub events: usize,
    pub rng: Rng,
}

impl Sess {
    pub fn new(scratch: PathBuf, seed: u64) -> Sess {
        Sess {
            armed: None,
            kind: Kind::D64,
            trk: 35,
            err: false,
            border: None,
            path: None,
            ro: false,
            disk: None,
            prev: vec![],
            pmb: vec![],
            pbf: -1,
            pls: String::new(),
            phd: String::new(),
            writers: BTreeMap::new(),
            len: BTreeMap::new(),
            saved: BTreeMap::new(),
            kept: BTreeMap::new(),
            parked: vec![],
            flushed: false,
            reading: None,
            scratch,
            serial: 0,
            dead: false,
            events: 0,
            rng: Rng::new(seed ^ 0x5151),
        }
    }
    fn d(&self) -> &dyn Disk {
        &**self.disk.as_ref().unwrap()
    }
    fn dm(&mut self) -> &mut dyn Disk {
        &mut **self.disk.as_mut().unwrap()
    }
    fn image_now(&self) -> Vec<u8> {
        match self.path {
            Some(ref p) => {
                let mut v = fs::read(p).unwrap_or_default();
                v.truncate(nsectors(self.kind, self.trk) * 256);
                v
            }
            None => sectors_of(self.d(), self.kind, self.trk),
        }
    }
    fn is_meta(&self, t: usize, s: usize) -> bool {
        t == self.kind.dir()
            || (self.kind == Kind::D71 && t == 53 && s == 0)
            || self.border == Some((t, s))
    }
    fn observe(&mut self, j: &mut J) {
        let now = self.image_now();
        let mut chg = vec![];
        let mut raw = vec![];
        if now.len() == self.prev.len() {
            for (i, (t, s)) in all_locs(self.kind, self.trk).into_iter().enumerate() {
                let a = &now[i * 256..i * 256 + 256];
                if a != &self.prev[i * 256..i * 256 + 256] {
                    let (n, h1, h2) = if a[0] == 0 {
                        if a[1] < 1 {
                            (0, 0, 0)
                        } else {
                            digest(&a[2..a[1] as usize + 1])
                        }
                    } else {
                        digest(&a[2..256])
                    };
                    chg.push(format!("[{},{},{},{},{},{}]", t * 256 + s, a[0], a[1], n, h1, h2));
                    if self.is_meta(t, s) {
                        raw.push(format!("[{},{}]", t * 256 + s, jbytes(a)));
                    }
                }
            }
        } else {
            chg.push("[-1,0,0,0,0,0]".into());
        }
        self.prev = now;
        j.raw("chg", &jlist(&chg));
        j.raw("raw", &jlist(&raw));
        match mem_bam(self.d(), self.kind) {
            Ok(mb) => {
                let mut v = vec![];
                for (i, e) in mb.iter().enumerate() {
                    if self.pmb.get(i) != Some(e) {
                        let by = e.1.to_le_bytes();
                        v.push(format!("[{},{},{}]", i + 1, e.0, jbytes(&by)));
                    }
                }
                self.pmb = mb;
                j.raw("mb", &jlist(&v));
                j.s("bam", "ok");
            }
            Err(e) => {
                j.raw("mb", "[]");
                j.s("bam", &e);
                self.pmb = vec![];
            }
        }
        let bf = match call("blocks_free", || self.d().blocks_free()) {
            Ok(n) => n as i64,
            Err(_) => -1,
        };
        self.pbf = bf;
        j.i("bf", bf);
        let ls = listing_json(self.d());
        if ls != self.pls {
            j.raw("ls", &ls);
            self.pls = ls;
        }
        let hd = header_json(self.d());
        if hd != self.phd {
            j.raw("hd", &hd);
            self.phd = hd;
        }
        j.i("nf", self.len.len() as i64);
    }
    fn finish(&mut self, mut j: J, res: &str) {
        self.disarm();
        j.s("res", res);
        if res == "panic" {
            self.dead = true;
        }
        self.observe(&mut j);
        emit(j.end());
        self.events += 1;
    }
    fn fresh_path(&mut self, ext: bool) -> PathBuf {
        self.serial += 1;
        if ext {
            self.scratch.join(format!("i{}.{}", self.serial, self.kind.name()))
        } else {
            self.scratch.join(format!("i{}", self.serial))
        }
    }
    fn close(&mut self) {
        self.kept.clear();
        self.reading = None;
        self.writers.clear();
        self.parked.clear();
        self.disk = None;
        if let Some(p) = self.path.take() {
            let _ = fs::remove_file(p);
        }
    }
    /// Every file's contents, by the listing.
    fn contents_json(&mut self, d: &dyn Disk, mode: usize, only: Option<&Vec<Vec<u8>>>) -> String {
        let mut v = vec![];
        let list = match call("directory", || d.directory()) {
            Ok(l) => l,
            Err(e) => return format!("[{{\"nm\":[0],\"res\":\"{}\",\"pc\":[]}}]", e),
        };
        let mut rng = Rng::new(7);
        for e in list {
            let nm = e.filename.as_bytes().to_vec();
            if let Some(o) = only {
                if !o.contains(&nm) {
                    continue;
                }
            }
            let r = call("open", || d.open_file(&e.filename)).and_then(|f| read_file(&f, mode, &mut rng));
            let mut j = J::obj();
            j.bytes("nm", &nm);
            match r {
                Ok(data) => {
                    j.s("res", "ok");
                    j.raw("pc", &pieces(&data, 0));
                }
                Err(e) => {
                    j.s("res", &e);
                    j.raw("pc", "[]");
                }
            }
            v.push(j.end());
        }
        jlist(&v)
    }
    /// What opening, reading and then filling the given image shows.
    fn recover(&mut self, j: &mut J, bytes: &[u8], mode: usize) {
        let p = self.fresh_path(true);
        fs::write(&p, bytes).unwrap();
        match call("open", || open_path(&p, true)) {
            Ok(mut d) => {
                j.s("sres", "ok");
                j.raw("sls", &listing_json(&*d));
                let c1 = self.contents_json(&*d, mode, None);
                j.raw("sn", &c1);
                // Keep using the recovered image: fill it completely.
                let names: Vec<Vec<u8>> = call("directory", || d.directory())
                    .map(|l| l.iter().map(|e| e.filename.as_bytes().to_vec()).collect())
                    .unwrap_or_default();
                let fill = call("fill", || {
                    let f = d.create_file(&Petscii::from_bytes(b"\x7fZZFILL"), FileType::SEQ, Scheme::Linear)?;
                    let mut w = f.writer()?;
                    let buf = vec![0x5Au8; 25400];
                    loop {
                        match w.write(&buf) {
                            Ok(0) => break,
                            Ok(_) => {}
                            Err(_) => break,
                        }
                    }
                    w.flush()
                });
                j.s("fill", &fill.map(|_| "ok".to_string()).unwrap_or_else(|e| e));
                let c2 = self.contents_json(&*d, 7, Some(&names));
                j.raw("sn2", &c2);
            }
            Err(e) => {
                j.s("sres", &e);
                j.raw("sls", "[]").raw("sn", "[]").raw("sn2", "[]").s("fill", "none");
            }
        }
        let _ = fs::remove_file(&p);
    }
    /// Arrange for the image to be kept as it is at some write of the next operation: the k-th (from 1),
    /// or any (k = 0).
    fn arm(&mut self, k: usize, seed: u64, of: &str, names: Vec<Vec<u8>>) {
        self.armed = Some((of.to_string(), names));
        *CRASH.lock().unwrap() = Crash { n: 0, img: vec![] };
        let mut rng = Rng::new(seed);
        cbm::disk::verif::set_observer(Some(Box::new(move |b: &[u8]| {
            let mut c = CRASH.lock().unwrap();
            c.n += 1;
            let n = c.n;
            if (k > 0 && n == k) || (k == 0 && rng.below(n) == 0) {
                c.img = b.to_vec();
            }
        })));
    }
    /// The operation is over: report what a crash in the middle of it would have left.
    fn disarm(&mut self) {
        let (of, names) = match self.armed.take() {
            Some(x) => x,
            None => return,
        };
        cbm::disk::verif::set_observer(None);
        let (n, mut img) = {
            let mut c = CRASH.lock().unwrap();
            (c.n, std::mem::take(&mut c.img))
        };
        if img.is_empty() {
            return;
        }
        img.resize(image_size(self.kind, self.trk, self.err), 1);
        let mut j = J::new("mid");
        j.s("of", &of).i("n", n as i64);
        j.raw("x", &jlist(&names.iter().map(|x| jbytes(&strip(x))).collect::<Vec<_>>()));
        self.recover(&mut j, &img, 7);
        j.s("res", "ok");
        emit(j.end());
        self.events += 1;
    }
    pub fn last_bf(&self) -> i64 {
        self.pbf
    }
    pub fn loadable(&self) -> bool {
        self.disk.is_some()
    }

    /// Execute one command line.
    pub fn exec(&mut self, line: &str) {
        let a: Vec<&str> = line.split_whitespace().collect();
        if a.is_empty() || (self.dead && a[0] != "new" && a[0] != "restore") {
            return;
        }
        let num = |i: usize| -> usize { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        if ["write", "flush", "drop"].contains(&a[0]) {
            // the file under a reader in progress is about to change
            let nm = self.writers.get(&(num(1) as u32)).map(|x| x.1.clone());
            if nm.is_some() && nm == self.reading.as_ref().map(|x| x.0.clone()) {
                self.reading = None;
            }
        }
        if ["new", "format", "dirty", "geos", "restore", "reopen"].contains(&a[0]) {
            self.kept.clear();
            self.reading = None;
            if a[0] != "format" && !self.dead {
                self.exec("unpark");
            }
        }
        match a[0] {
            "park" => {
                // park w : flush, then keep the writer, unused, past other operations on its file
                let w = num(1) as u32;
                if !self.writers.contains_key(&w) || self.ro {
                    return;
                }
                self.flushed = false;
                self.exec(&format!("flush {}", w));
                if self.flushed {
                    let (wr, _) = self.writers.remove(&w).unwrap();
                    self.parked.push(wr);
                    let mut j = J::new("park");
                    j.i("w", w as i64);
                    self.finish(j, "ok");
                }
            }
            "unpark" => {
                // closing such writers changes nothing
                if self.parked.is_empty() {
                    return;
                }
                let v: Vec<Box<dyn Write>> = self.parked.drain(..).collect();
                let j = J::new("unpark");
                let r = guard("drop", move || drop(v));
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "mid" => {
                // mid k seed command... : with a crash at the k-th write (0: any) of the command
                if a.len() < 4 {
                    return;
                }
                let names: Vec<Vec<u8>> = match a[3] {
                    "write" | "flush" | "drop" => {
                        self.writers.get(&(num(4) as u32)).map(|x| vec![x.1.clone()]).unwrap_or_default()
                    }
                    "del" | "attr" => vec![unhex(a[4])],
                    "ren" => vec![unhex(a[4]), unhex(a[5])],
                    _ => vec![],
                };
                self.arm(num(1), num(2) as u64, a[3], names);
                let rest = a[3..].join(" ");
                self.exec(&rest);
                self.armed = None;
                cbm::disk::verif::set_observer(None);
            }
            "new" => {
                // new kind trk err backing
                self.close();
                self.dead = false;
                self.kind = Kind::parse(a[1]);
                self.trk = num(2);
                self.err = num(3) == 1;
                self.border = None;
                self.ro = false;
                self.len.clear();
                let mut j = J::new("new");
                j.s("k", self.kind.name()).i("trk", self.trk as i64).i("err", self.err as i64);
                j.s("bk", a[4]);
                let (k, trk, err) = (self.kind, self.trk, self.err);
                let r = if a[4] == "m" {
                    self.path = None;
                    call("open_memory", || mem_disk(k, trk, err))
                } else {
                    let p = self.fresh_path(true);
                    fs::write(&p, vec![0u8; image_size(k, trk, err)]).unwrap();
                    self.path = Some(p.clone());
                    call("open", || open_path(&p, true))
                };
                self.prev = vec![0u8; nsectors(k, trk) * 256];
                self.pmb = vec![];
                self.pls = String::new();
                self.phd = String::new();
                match r {
                    Ok(d) => {
                        self.disk = Some(d);
                        self.finish(j, "ok");
                    }
                    Err(e) => {
                        self.dead = true;
                        j.s("res", &e);
                        emit(j.end());
                    }
                }
            }
            "format" => {
                let (n, id) = (unhex(a[1]), unhex(a[2]));
                let mut j = J::new("format");
                j.bytes("nm", &n).bytes("id", &id);
                let p = Petscii::from_bytes(&n);
                let i = Id::from_bytes(&id);
                let r = call("format", || self.dm().write_format(&p, &i));
                if r.is_ok() {
                    self.border = None;
                    self.len.clear();
                }
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                // every sector with a nonzero byte, in full
                let img = self.image_now();
                let mut nz = vec![];
                for (i, (t, s)) in all_locs(self.kind, self.trk).into_iter().enumerate() {
                    if img[i * 256..i * 256 + 256].iter().any(|b| *b != 0) {
                        nz.push(t * 256 + s);
                    }
                }
                if nz.len() > 50 {
                    nz.truncate(50);
                }
                j.raw("nz", &jints(&nz));
                let lim = call("limits", || {
                    let f = self.d().disk_format()?;
                    Ok((f.max_directory_entries() as i64, f.total_data_blocks() as i64))
                });
                let lim = lim.unwrap_or((-1, -1));
                j.i("mde", lim.0).i("tdb", lim.1);
                self.finish(j, &res);
            }
            "dirty" => {
                // Fill every sector (not the error table) with garbage, as a previous use of the medium.
                let mut rng = Rng::new(num(1) as u64);
                let mut bytes = rng.bytes(nsectors(self.kind, self.trk) * 256);
                if num(2) == 1 {
                    // keep the header plausible, with a GEOS signature
                    let h = offset(self.kind, self.kind.dir(), 0);
                    bytes[h + 3] = 0x80;
                    bytes[h + 0xAB] = 19;
                    bytes[h + 0xAC] = 8;
                    bytes[h + 0xAD..h + 0xAD + 11].copy_from_slice(b"GEOS format");
                }
                let mut ok = true;
                for (i, (t, s)) in all_locs(self.kind, self.trk).into_iter().enumerate() {
                    let l = loc!(self.d(), t, s);
                    if self.dm().write_sector(l, &bytes[i * 256..i * 256 + 256]).is_err() {
                        ok = false;
                    }
                }
                let _ = guard("initialize", || self.dm().initialize());
                self.prev = self.image_now();
                let mut j = J::new("dirty");
                j.s("res", if ok { "ok" } else { "io" });
                emit(j.end());
            }
            "geos" => {
                // Turn the freshly formatted disk into a GEOS disk with the given border sector.
                let (t, s) = (num(1), num(2));
                let mut j = J::new("geos");
                j.i("bd", (t * 256 + s) as i64);
                self.border = Some((t, s));
                let dirt = self.kind.dir();
                let r = call("geos", || {
                    let d = self.dm();
                    let hl = loc!(d, dirt, 0);
                    let bl = loc!(d, t, s);
                    {
                        let b = d.bam()?;
                        let mut b = b.borrow_mut();
                        b.allocate(bl)?;
                        b.flush()?;
                    }
                    let mut h = d.read_sector(hl)?;
                    h[0xAB] = t as u8;
                    h[0xAC] = s as u8;
                    h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
                    d.write_sector(hl, &h)?;
                    let mut b = vec![0u8; 256];
                    b[1] = 0xFF;
                    d.write_sector(bl, &b)?;
                    d.initialize();
                    Ok(())
                });
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "junk" => {
                // Leave arbitrary bytes in unused directory slots, as other software would.
                let mut rng = Rng::new(num(1) as u64);
                let mode = num(2);
                let j = J::new("junk");
                let (dirt, dirs) = (self.kind.dir(), self.kind.first_dir_sector());
                let r = call("junk", || {
                    let d = self.dm();
                    if mode == 1 {
                        // free blocks, those nearest to the directory first
                        let mut f: Vec<(usize, usize)> =
                            d.bam()?.borrow().free_sectors()?.iter().map(|l| (l.0 as usize, l.1 as usize)).collect();
                        f.sort_by_key(|l| ((l.0 as i64 - dirt as i64).abs(), *l));
                        let near = f.iter().filter(|l| l.0 == dirt).count() + rng.below(8);
                        let mut pick: Vec<(usize, usize)> = f.iter().take(near).cloned().collect();
                        for _ in 0..4 {
                            if !f.is_empty() {
                                pick.push(*rng.pick(&f));
                            }
                        }
                        for (t, s) in pick {
                            let mut b = rng.bytes(256);
                            if rng.chance(1, 2) {
                                b[0] = (1 + rng.below(35)) as u8;
                                b[1] = rng.below(17) as u8;
                            }
                            d.write_sector(loc!(d, t, s), &b)?;
                        }
                        return Ok(());
                    }
                    let (mut t, mut s) = (dirt, dirs);
                    for _ in 0..64 {
                        let l = loc!(d, t, s);
                        let mut b = d.read_sector(l)?;
                        for i in 0..8 {
                            let e = &mut b[i * 32..i * 32 + 32];
                            if e[2] & 0x8F != 0 || !rng.chance(2, 3) {
                                continue;
                            }
                            let from = if rng.chance(1, 3) { 0x15 } else { 3 };
                            for x in e[from..].iter_mut() {
                                *x = rng.below(256) as u8;
                            }
                            if i > 0 && rng.chance(1, 4) {
                                e[0] = rng.below(256) as u8;
                                e[1] = rng.below(256) as u8;
                            }
                            e[2] = *rng.pick(&[0, 0, 0x10, 0x20, 0x40, 0x70]);
                        }
                        d.write_sector(l, &b)?;
                        if b[0] == 0 {
                            break;
                        }
                        t = b[0] as usize;
                        s = b[1] as usize;
                    }
                    Ok(())
                });
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "create" | "createw" => {
                // create name type ; createw w name type
                let w = if a[0] == "createw" { Some(num(1) as u32) } else { None };
                let o = if w.is_some() { 1 } else { 0 };
                let n = unhex(a[1 + o]);
                let ty = num(2 + o) as u8;
                let mut j = J::new("create");
                j.bytes("nm", &n).i("ty", ty as i64);
                let p = Petscii::from_bytes(&n);
                let r = call("create", || self.dm().create_file(&p, ft(ty), Scheme::Linear));
                let res = match r {
                    Ok(f) => {
                        self.len.insert(strip(&n), 0);
                        self.kept.insert(strip(&n), f);
                        "ok".to_string()
                    }
                    Err(e) => e,
                };
                let ok = res == "ok";
                self.finish(j, &res);
                if let (Some(w), true) = (w, ok) {
                    let nm = strip(&n);
                    self.open_writer(w, nm, None);
                }
            }
            "writer" => {
                let w = num(1) as u32;
                let n = unhex(a[2]);
                if num(3) == 1 && self.kept.contains_key(&n) {
                    return self.open_writer(w, strip(&n), None);
                }
                let p = Petscii::from_bytes(&n);
                let f = call("open", || self.d().open_file(&p));
                self.open_writer(w, strip(&n), Some(f));
            }
            "write" => {
                // write w len seed
                let w = num(1) as u32;
                if !self.writers.contains_key(&w) {
                    return;
                }
                let data = Rng::new(num(3) as u64).payload(num(2));
                let mut j = J::new("write");
                j.i("w", w as i64).i("rq", data.len() as i64);
                let (wr, nm) = self.writers.get_mut(&w).unwrap();
                let r = call("write", || wr.write(&data));
                let nm = nm.clone();
                match r {
                    Ok(n) => {
                        let have = *self.len.get(&nm).unwrap_or(&0);
                        let off = if have > 0 && have % 254 == 0 { 254 } else { have % 254 };
                        let n2 = n.min(data.len());
                        let off = if off == 254 { 0 } else { off };
                        j.i("acc", n as i64);
                        j.raw("pc", &pieces(&data[..n2], off));
                        if !self.ro {
                            self.len.insert(nm, have + n2);
                        }
                        self.finish(j, "ok");
                    }
                    Err(e) => {
                        j.i("acc", 0);
                        j.raw("pc", "[]");
                        self.finish(j, &e);
                    }
                }
            }
            "flush" => {
                let w = num(1) as u32;
                if !self.writers.contains_key(&w) {
                    return;
                }
                let mut j = J::new("flush");
                j.i("w", w as i64);
                let r = call("flush", || self.writers.get_mut(&w).unwrap().0.flush());
                self.flushed = r.is_ok();
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "drop" => {
                let w = num(1) as u32;
                if let Some((wr, _)) = self.writers.remove(&w) {
                    let mut j = J::new("drop");
                    j.i("w", w as i64);
                    let r = guard("drop", move || drop(wr));
                    let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                    self.finish(j, &res);
                }
            }
            "dropall" => {
                let ws: Vec<u32> = self.writers.keys().cloned().collect();
                for w in ws {
                    self.exec(&format!("drop {}", w));
                }
            }
            "read" => {
                let n = unhex(a[1]);
                let mode = num(2);
                let mut j = J::new("read");
                j.bytes("nm", &n).i("mode", mode as i64);
                let p = Petscii::from_bytes(&n);
                let mut rng = Rng::new(self.rng.next());
                let r = match self.kept.get(&n) {
                    Some(f) if num(3) == 1 => read_file(f, mode, &mut rng),
                    _ => {
                        let f = call("open", || self.d().open_file(&p));
                        f.and_then(|f| {
                            let r = read_file(&f, mode, &mut rng);
                            self.kept.insert(strip(&n), f);
                            r
                        })
                    }
                };
                let res = match r {
                    Ok(data) => {
                        j.raw("pc", &pieces(&data, 0));
                        "ok".to_string()
                    }
                    Err(e) => {
                        j.raw("pc", "[]");
                        e
                    }
                };
                self.finish(j, &res);
            }
            "rstart" => {
                // rstart name : start reading a file, without an event
                let n = strip(&unhex(a[1]));
                if !self.len.contains_key(&n) {
                    return;
                }
                let p = Petscii::from_bytes(&n);
                if let Ok(r) = call("open", || self.d().open_file(&p)).and_then(|f| call("reader", || f.reader())) {
                    self.reading = Some((n, r, vec![]));
                }
            }
            "rstep" => {
                // rstep n : read some bytes, without an event
                if let Some((_, ref mut r, ref mut v)) = self.reading {
                    let mut buf = vec![0u8; num(1)];
                    if let Ok(k) = call("read", || r.read(&mut buf)) {
                        v.extend_from_slice(&buf[..k.min(buf.len())]);
                    }
                }
            }
            "rend" => {
                // rend mode : read the rest
                if let Some((n, mut r, mut v)) = self.reading.take() {
                    let mut j = J::new("read");
                    j.bytes("nm", &n).i("mode", 20);
                    let mut rng = Rng::new(self.rng.next());
                    let res = match read_all(&mut *r, num(1), &mut rng) {
                        Ok(data) => {
                            v.extend_from_slice(&data);
                            j.raw("pc", &pieces(&v, 0));
                            "ok".to_string()
                        }
                        Err(e) => {
                            j.raw("pc", "[]");
                            e
                        }
                    };
                    self.finish(j, &res);
                }
            }
            "del" => {
                // del name [mode]
                let n = unhex(a[1]);
                let p = Petscii::from_bytes(&n);
                let mut j = J::new("del");
                j.bytes("nm", &n);
                let mode = num(2);
                let old = self.kept.remove(&strip(&n));
                if self.reading.as_ref().map(|x| &x.0) == Some(&strip(&n)) {
                    self.reading = None;
                }
                let r = call("delete", || {
                    if let (true, Some(mut f)) = (mode == 2 && strip(&n) == n, old) {
                        return f.delete();
                    }
                    let mut f = if mode == 1 {
                        let e = self.d().find_directory_entry(&p)?;
                        self.d().open_file_from_entry(&e)?
                    } else {
                        self.d().open_file(&p)?
                    };
                    f.delete()
                });
                if r.is_ok() {
                    self.len.remove(&strip(&n));
                }
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "ren" => {
                let (n, m) = (unhex(a[1]), unhex(a[2]));
                let mut j = J::new("ren");
                j.bytes("nm", &n).bytes("to", &m);
                let (p, q) = (Petscii::from_bytes(&n), Petscii::from_bytes(&m));
                let r = call("rename", || self.dm().rename(&p, &q));
                if r.is_ok() {
                    if let Some(l) = self.len.remove(&strip(&n)) {
                        self.len.insert(strip(&m), l);
                    }
                    for (_, (_, nm)) in self.writers.iter_mut() {
                        if *nm == strip(&n) {
                            *nm = strip(&m);
                        }
                    }
                    if let Some(f) = self.kept.remove(&strip(&n)) {
                        self.kept.insert(strip(&m), f);
                    }
                    if let Some((ref mut nm, _, _)) = self.reading {
                        if *nm == strip(&n) {
                            *nm = strip(&m);
                        }
                    }
                }
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "attr" => {
                // attr name attrbyte : change type/flags through write_directory_entry
                let n = unhex(a[1]);
                let at = num(2) as u8;
                let mut j = J::new("attr");
                j.bytes("nm", &n).i("a", at as i64);
                let p = Petscii::from_bytes(&n);
                let r = call("attr", || {
                    let mut e = self.d().find_directory_entry(&p)?;
                    e.file_attributes.file_type = ft(at & 15);
                    e.file_attributes.unused_bit = at & 16 != 0;
                    e.file_attributes.save_with_replace_flag = at & 32 != 0;
                    e.file_attributes.locked_flag = at & 64 != 0;
                    e.file_attributes.closed_flag = at & 128 != 0;
                    self.dm().write_directory_entry(&e)
                });
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "badname" => {
                // Try to store an entry whose name is longer than a slot allows.
                let n = unhex(a[1]);
                let m = unhex(a[2]);
                let mut j = J::new("badname");
                j.bytes("nm", &n).bytes("to", &m);
                let p = Petscii::from_bytes(&n);
                let r = call("badname", || {
                    let mut e = self.d().find_directory_entry(&p)?;
                    e.filename = Petscii::from_bytes(&m);
                    self.dm().write_directory_entry(&e)
                });
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "nfde" => {
                let mut j = J::new("nfde");
                let r = call("nfde", || self.dm().next_free_directory_entry());
                let res = match r {
                    Ok(e) => {
                        j.raw("en", &entry_json(&e));
                        "ok".to_string()
                    }
                    Err(e) => e,
                };
                self.finish(j, &res);
            }
            "occ" => {
                let n = unhex(a[1]);
                let mut j = J::new("occ");
                j.bytes("nm", &n);
                let p = Petscii::from_bytes(&n);
                let r = call("occupied", || {
                    let kept = if num(2) == 1 { self.kept.get(&n) } else { None };
                    if let Some(f) = kept {
                        return Ok(f.occupied_sectors()?.iter().map(|l| l2i(l.0, l.1)).collect::<Vec<_>>());
                    }
                    let f = self.d().open_file(&p)?;
                    Ok(f.occupied_sectors()?.iter().map(|l| l2i(l.0, l.1)).collect::<Vec<_>>())
                });
                let res = match r {
                    Ok(v) => {
                        j.raw("oc", &jints(&v));
                        "ok".to_string()
                    }
                    Err(e) => {
                        j.raw("oc", "[]");
                        e
                    }
                };
                self.finish(j, &res);
            }
            "validate" => {
                let mut j = J::new("validate");
                let r = call("validate", || self.d().validate());
                let res = match r {
                    Ok(v) => {
                        j.i("nerr", v.len() as i64);
                        "ok".to_string()
                    }
                    Err(e) => {
                        j.i("nerr", -1);
                        e
                    }
                };
                self.finish(j, &res);
            }
            "init" => {
                // Writers may stay open: what they hold is flushed first.
                let ws: Vec<u32> = self.writers.keys().cloned().collect();
                for w in ws {
                    self.exec(&format!("flush {}", w));
                }
                let j = J::new("init");
                let r = guard("initialize", || self.dm().initialize());
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "wsec" => {
                // A raw sector write (used on read-only images, and with wrong sizes).
                let (t, s, n) = (num(1), num(2), num(3));
                let mut j = J::new("wsec");
                j.i("loc", (t * 256 + s) as i64).i("n", n as i64);
                let r = call("write_sector", || {
                    let l = loc!(self.d(), t, s);
                    self.dm().write_sector(l, &vec![0x55u8; n])
                });
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "hdrset" => {
                // Change the disk name/id through the header and write it back: hdrset name id
                let (n, id) = (unhex(a[1]), unhex(a[2]));
                let mut j = J::new("hdrset");
                j.bytes("nm", &n).bytes("id", &id);
                let r = call("header_mut", || {
                    let d = self.dm();
                    {
                        let h = d.header_mut()?;
                        h.disk_name = Petscii::from_bytes(&n);
                        h.disk_id = Id::from_bytes(&id);
                    }
                    d.flush_header()
                });
                if r.is_err() {
                    let _ = guard("initialize", || self.dm().initialize());
                }
                let res = r.map(|_| "ok".to_string()).unwrap_or_else(|e| e);
                self.finish(j, &res);
            }
            "snap" => {
                // What a crash right now would leave behind.
                let bytes = match self.path {
                    Some(ref p) => fs::read(p).unwrap(),
                    None => {
                        let mut v = self.image_now();
                        v.resize(image_size(self.kind, self.trk, self.err), 1);
                        v
                    }
                };
                let mut j = J::new("snap");
                self.recover(&mut j, &bytes, num(1));
                self.finish(j, "ok");
            }
            "reopen" => {
                // reopen ro how : close and open again. how: 0 same file, 1 copy without extension, 2 memory
                if !self.writers.is_empty() {
                    return;
                }
                self.reopen(num(1) == 1, num(2));
            }
            "save" => {
                if !self.writers.is_empty() {
                    return;
                }
                let k = num(1) as u32;
                let full = match self.path {
                    Some(ref p) => fs::read(p).unwrap(),
                    None => {
                        let mut v = self.image_now();
                        v.resize(image_size(self.kind, self.trk, self.err), 1);
                        v
                    }
                };
                self.saved.insert(
                    k,
                    (full, self.len.clone(), self.border, self.kind, self.trk, self.err, self.pls.clone(), self.phd.clone()),
                );
                let mut j = J::new("save");
                j.i("i", k as i64).s("res", "ok");
                emit(j.end());
            }
            "restore" => {
                // restore i backing
                let k = num(1) as u32;
                let (full, len, border, kind, trk, err, pls, phd) = match self.saved.get(&k) {
                    Some(x) => x.clone(),
                    None => return,
                };
                self.close();
                self.dead = false;
                self.ro = false;
                self.kind = kind;
                self.trk = trk;
                self.err = err;
                self.len = len;
                self.border = border;
                let mut j = J::new("restore");
                j.i("i", k as i64);
                let r = if a.get(2) == Some(&"m") {
                    self.path = None;
                    call("load", || mem_disk_from(kind, trk, err, &full))
                } else {
                    let p = self.fresh_path(true);
                    fs::write(&p, &full).unwrap();
                    self.path = Some(p.clone());
                    call("open", || open_path(&p, true))
                };
                self.prev = full[..nsectors(kind, trk) * 256].to_vec();
                self.pls = pls;
                self.phd = phd;
                self.pmb = vec![];
                match r {
                    Ok(d) => {
                        self.disk = Some(d);
                        self.finish(j, "ok");
                    }
                    Err(e) => {
                        self.dead = true;
                        j.s("res", &e);
                        emit(j.end());
                    }
                }
            }
            _ => panic!("unknown command {}", line),
        }
    }
    /// Open a writer, through the given File or the one kept under that name.
    fn open_writer(&mut self, w: u32, nm: Vec<u8>, f: Option<Result<File, String>>) {
        let mut j = J::new("writer");
        j.i("w", w as i64).bytes("nm", &nm);
        let r = match f {
            Some(f) => f.and_then(|f| {
                let r = call("writer", || f.writer());
                if !self.kept.contains_key(&nm) {
                    self.kept.insert(nm.clone(), f);
                }
                r
            }),
            None => {
                let f = &self.kept[&nm];
                call("writer", || f.writer())
            }
        };
        let res = match r {
            Ok(x) => {
                self.writers.insert(w, (x, nm));
                "ok".to_string()
            }
            Err(e) => e,
        };
        self.finish(j, &res);
    }
    fn reopen(&mut self, ro: bool, how: usize) {
        self.kept.clear();
        self.reading = None;
        let (k, trk, err) = (self.kind, self.trk, self.err);
        let mut j = J::new("reopen");
        j.i("ro", ro as i64).i("how", how as i64);
        let mut full = match self.path {
            Some(ref p) if p.exists() => fs::read(p).unwrap(),
            _ => self.image_now(),
        };
        full.resize(image_size(k, trk, err), 1);
        self.disk = None;
        let how = if self.path.is_none() && !ro && how == 0 { 2 } else { how };
        let r = if how == 2 && !ro {
            if let Some(p) = self.path.take() {
                let _ = fs::remove_file(p);
            }
            call("load", || mem_disk_from(k, trk, err, &full))
        } else {
            if how == 1 || self.path.is_none() {
                if let Some(p) = self.path.take() {
                    let _ = fs::remove_file(p);
                }
                let p = self.fresh_path(how != 1);
                fs::write(&p, &full).unwrap();
                self.path = Some(p);
            }
            let p = self.path.clone().unwrap();
            call("open", || open_path(&p, !ro))
        };
        self.ro = ro;
        self.pmb = vec![];
        match r {
            Ok(d) => {
                let c = self.contents_json(&*d, 7, None);
                self.disk = Some(d);
                j.raw("rd", &c);
                self.finish(j, "ok");
            }
            Err(e) => {
                self.dead = true;
                j.s("res", &e);
                emit(j.end());
            }
        }
    }
    pub fn shutdown(&mut self) {
        self.close();
        let _ = fs::remove_dir_all(&self.scratch);
    }
}
