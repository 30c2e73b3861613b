//! Shared plumbing: deterministic RNG, JSON emission, digests, the disk geometry tables used to look
//! at raw image bytes independently of the library, panic/hang containment.

use std::fmt::Write as _;
use std::fs;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

use cbm::disk::{self, Disk, DiskError, D64, D71, D81};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0xD1B54A32D192ED03);
        Rng(r.next().rotate_left(17) ^ seed.wrapping_mul(0xA24BAED4963EE407))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// Contents for a file: mostly random bytes, sometimes constant or with runs.
    pub fn payload(&mut self, n: usize) -> Vec<u8> {
        const SPECIAL: [u8; 8] = [0, 0xFF, 0xA0, 0, 1, 0x20, 0x0D, 0x12];
        match self.below(8) {
            0 => vec![SPECIAL[self.below(8) as usize]; n],
            1 => {
                let mut v = Vec::with_capacity(n);
                while v.len() < n {
                    let b = if self.chance(1, 2) { SPECIAL[self.below(8) as usize] } else { self.next() as u8 };
                    for _ in 0..1 + self.below(300) {
                        v.push(b);
                    }
                }
                v.truncate(n);
                v
            }
            2 => (0..n).map(|_| if self.chance(1, 2) { SPECIAL[self.below(8) as usize] } else { self.next() as u8 }).collect(),
            _ => self.bytes(n),
        }
    }
}

// ---------------------------------------------------------------- JSON
pub struct J(String);
impl J {
    pub fn new(op: &str) -> J {
        let mut s = String::with_capacity(256);
        let _ = write!(s, "{{\"op\":\"{}\"", op);
        J(s)
    }
    pub fn obj() -> J {
        J(String::from("{"))
    }
    pub fn i(&mut self, k: &str, v: i64) -> &mut J {
        self.key(k);
        let _ = write!(self.0, "{}", v);
        self
    }
    fn key(&mut self, k: &str) {
        if !self.0.ends_with('{') {
            self.0.push(',');
        }
        let _ = write!(self.0, "\"{}\":", k);
    }
    pub fn s(&mut self, k: &str, v: &str) -> &mut J {
        self.key(k);
        let _ = write!(self.0, "\"{}\"", v.replace('\\', "\\\\").replace('"', "'"));
        self
    }
    pub fn raw(&mut self, k: &str, v: &str) -> &mut J {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn b(&mut self, k: &str, v: bool) -> &mut J {
        self.raw(k, if v { "true" } else { "false" })
    }
    pub fn bytes(&mut self, k: &str, v: &[u8]) -> &mut J {
        let s = jbytes(v);
        self.raw(k, &s)
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn jbytes(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", b);
    }
    s.push(']');
    s
}
pub fn jlist(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn jints<T: std::fmt::Display>(v: &[T]) -> String {
    let x: Vec<String> = v.iter().map(|a| a.to_string()).collect();
    format!("[{}]", x.join(","))
}

/// Text as a printable ASCII string; other characters, and " \\ ~, as ~hex;
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' | '\\' | '~' => {
                let _ = write!(o, "~{:x};", c as u32);
            }
            ' '..='}' => o.push(c),
            _ => {
                let _ = write!(o, "~{:x};", c as u32);
            }
        }
    }
    o
}
/// Output as a list of its lines; a last line without line feed is followed by a marker.
pub fn jlines(out: &[u8]) -> String {
    let t = String::from_utf8_lossy(out);
    let mut v: Vec<String> = t.split('\n').map(|l| format!("\"{}\"", esc(l))).collect();
    match v.pop() {
        Some(x) if x != "\"\"" => {
            v.push(x);
            v.push("\"~noeol;\"".to_string());
        }
        _ => {}
    }
    jlist(&v)
}

// ---------------------------------------------------------------- digests
pub const P1: u64 = 46337;
pub const P2: u64 = 46327;
pub const B1: u64 = 257;
pub const B2: u64 = 263;
pub fn digest(d: &[u8]) -> (usize, u64, u64) {
    let (mut a, mut b) = (0u64, 0u64);
    for x in d {
        a = (a * B1 + *x as u64 + 1) % P1;
        b = (b * B2 + *x as u64 + 1) % P2;
    }
    (d.len(), a, b)
}
pub fn jdig(d: &[u8]) -> String {
    let (n, a, b) = digest(d);
    format!("[{},{},{}]", n, a, b)
}
/// Digest a stream in 254-byte pieces; `off` bytes of the first piece are already used.
pub fn pieces(data: &[u8], off: usize) -> String {
    let mut v = vec![];
    let mut i = 0;
    let mut room = 254 - off;
    while i < data.len() {
        let n = room.min(data.len() - i);
        v.push(jdig(&data[i..i + n]));
        i += n;
        room = 254;
    }
    jlist(&v)
}

// ---------------------------------------------------------------- geometry (independent of the library)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    D64,
    D71,
    D81,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::D64 => "d64",
            Kind::D71 => "d71",
            Kind::D81 => "d81",
        }
    }
    pub fn parse(s: &str) -> Kind {
        match s {
            "d64" => Kind::D64,
            "d71" => Kind::D71,
            _ => Kind::D81,
        }
    }
    pub fn spt(self, t: usize) -> usize {
        fn z(t: usize) -> usize {
            match t {
                0..=17 => 21,
                18..=24 => 19,
                25..=30 => 18,
                _ => 17,
            }
        }
        match self {
            Kind::D64 => z(t),
            Kind::D71 => z(if t > 35 { t - 35 } else { t }),
            Kind::D81 => 40,
        }
    }
    pub fn dir(self) -> usize {
        match self {
            Kind::D81 => 40,
            _ => 18,
        }
    }
    pub fn last(self) -> usize {
        match self {
            Kind::D64 => 35,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    pub fn first_dir_sector(self) -> usize {
        match self {
            Kind::D81 => 3,
            _ => 1,
        }
    }
}
pub fn nsectors(k: Kind, trk: usize) -> usize {
    (1..=trk).map(|t| k.spt(t)).sum()
}
pub fn offset(k: Kind, t: usize, s: usize) -> usize {
    ((1..t).map(|x| k.spt(x)).sum::<usize>() + s) * 256
}
pub fn image_size(k: Kind, trk: usize, err: bool) -> usize {
    let n = nsectors(k, trk);
    n * 256 + if err { n } else { 0 }
}
pub fn all_locs(k: Kind, trk: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for t in 1..=trk {
        for s in 0..k.spt(t) {
            v.push((t, s));
        }
    }
    v
}

#[macro_export]
macro_rules! loc {
    ($d:expr, $t:expr, $s:expr) => {{
        let mut l = $d.native_disk_format().first_directory_location();
        l.0 = ($t) as u8;
        l.1 = ($s) as u8;
        l
    }};
}
pub fn l2i(t: u8, s: u8) -> i64 {
    t as i64 * 256 + s as i64
}

pub fn mem_disk(k: Kind, trk: usize, err: bool) -> io::Result<Box<dyn Disk>> {
    Ok(match k {
        Kind::D64 if trk == 40 => Box::new(D64::open_memory(D64::geometry_40_tracks(err))?),
        Kind::D64 => Box::new(D64::open_memory(D64::geometry(err))?),
        Kind::D71 => Box::new(D71::open_memory(D71::geometry(err))?),
        Kind::D81 => Box::new(D81::open_memory(D81::geometry(err))?),
    })
}

/// Load a complete image into an in-memory disk (through the public sector interface).
pub fn mem_disk_from(k: Kind, trk: usize, err: bool, bytes: &[u8]) -> io::Result<Box<dyn Disk>> {
    let mut d = mem_disk(k, trk, err)?;
    for (i, (t, s)) in all_locs(k, trk).into_iter().enumerate() {
        let l = loc!(d, t, s);
        d.write_sector(l, &bytes[i * 256..i * 256 + 256])?;
    }
    d.initialize();
    Ok(d)
}

pub fn sectors_of(d: &dyn Disk, k: Kind, trk: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(nsectors(k, trk) * 256);
    for (t, s) in all_locs(k, trk) {
        match d.read_sector(loc!(d, t, s)) {
            Ok(b) => v.extend_from_slice(&b),
            Err(_) => v.extend_from_slice(&[0xEE; 256]),
        }
    }
    v
}

// ---------------------------------------------------------------- scratch files
pub fn scratch_root() -> PathBuf {
    if let Ok(d) = std::env::var("CBMDRV_SCRATCH") {
        return PathBuf::from(d);
    }
    let base = if fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false)
        && fs::write(format!("/dev/shm/.cbmdrv{}", std::process::id()), b"x").is_ok()
    {
        let _ = fs::remove_file(format!("/dev/shm/.cbmdrv{}", std::process::id()));
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    let p = base.join(format!("cbmdrv-{}", std::process::id()));
    fs::create_dir_all(&p).expect("scratch");
    p
}
pub fn open_path(p: &PathBuf, writable: bool) -> io::Result<Box<dyn Disk>> {
    disk::open(p, writable)
}

// ---------------------------------------------------------------- errors, panics, hangs
pub fn ename(e: &io::Error) -> String {
    match DiskError::from_io_error(e) {
        Some(d) => format!("{:?}", d),
        None => "io".to_string(),
    }
}
pub struct Out {
    pub file: io::BufWriter<fs::File>,
    pub lines: usize,
    pub cur: Option<(String, Instant)>,
}
pub static OUT: Mutex<Option<Out>> = Mutex::new(None);

pub fn out_open(path: &str) {
    let f = fs::File::create(path).expect("trace file");
    *OUT.lock().unwrap() = Some(Out { file: io::BufWriter::new(f), lines: 0, cur: None });
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let mut g = match OUT.lock() {
            Ok(g) => g,
            Err(_) => continue,
        };
        if let Some(o) = g.as_mut() {
            let stuck = match &o.cur {
                Some((op, t)) if t.elapsed().as_secs() >= 20 => Some(op.clone()),
                _ => None,
            };
            if let Some(op) = stuck {
                let _ = writeln!(o.file, "{{\"op\":\"fatal\",\"what\":\"{}\",\"res\":\"hang\"}}", op);
                let _ = o.file.flush();
                std::process::exit(0);
            }
        }
    });
}
pub fn emit(line: String) {
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    let _ = writeln!(o.file, "{}", line);
    let _ = o.file.flush();
    o.lines += 1;
}
pub fn out_close() {
    let mut g = OUT.lock().unwrap();
    if let Some(o) = g.as_mut() {
        let _ = writeln!(o.file, "{{\"op\":\"end\"}}");
        let _ = o.file.flush();
    }
    *g = None;
}
/// Run one library call: a panic becomes Err("panic"); the watchdog ends the process on a hang.
pub fn guard<R>(op: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    if let Some(o) = OUT.lock().unwrap().as_mut() {
        o.cur = Some((op.replace('"', "'"), Instant::now()));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(o) = OUT.lock().unwrap().as_mut() {
        o.cur = None;
    }
    r.map_err(|_| "panic".to_string())
}
/// Like guard, for calls returning io::Result: the error (if any) as its name.
pub fn call<R>(op: &str, f: impl FnOnce() -> io::Result<R>) -> Result<R, String> {
    match guard(op, f) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(ename(&e)),
        Err(p) => Err(p),
    }
}
