//! PETSCII conversions and sprites.
use crate::common::*;
use cbm::disk::Id;
use cbm::{Petscii, Sprite};

fn cps(s: &str) -> String {
    jints(&s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn bools(v: &[bool]) -> String {
    jints(v)
}

fn chars() {
    let mut j = J::new("chars");
    let r = guard("chars", || {
        let (mut n, mut one) = (0i64, 0i64);
        let mut map = vec![];
        for u in 0..=0x10ffffu32 {
            if let Some(c) = char::from_u32(u) {
                n += 1;
                let p = Petscii::from_str_lossy(&c.to_string());
                if p.len() == 1 {
                    one += 1;
                    if p.as_bytes()[0] != 0x7f {
                        map.push(format!("[{},{}]", u, p.as_bytes()[0]));
                    }
                }
            }
        }
        (n, one, map)
    });
    match r {
        Ok((n, one, map)) => j.s("res", "ok").i("n", n).i("one", one).raw("map", &jlist(&map)),
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
    let mut j = J::new("codes");
    let r = guard("codes", || (0..=255u8).map(|b| cps(&Petscii::from_bytes(&[b]).to_string())).collect::<Vec<_>>());
    match r {
        Ok(m) => j.s("res", "ok").raw("map", &jlist(&m)),
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}

const GRAPH: [u32; 37] = [
    0xa3, 0xa0, 0x2190, 0x2191, 0x2501, 0x2503, 0x250f, 0x2513, 0x2517, 0x2518, 0x2523, 0x252b, 0x2533, 0x253b, 0x254b, 0x2580,
    0x2581, 0x2582, 0x2583, 0x2584, 0x258c, 0x258d, 0x258e, 0x2590, 0x2592, 0x2594, 0x2595, 0x2596, 0x2597, 0x2598, 0x259a, 0x259d,
    0x2713, 0xfffd, 0x7f, 0x80, 0x10ffff,
];
fn string(rng: &mut Rng) -> String {
    let n = match rng.below(6) {
        0 => rng.below(3),
        1 => 14 + rng.below(5),
        _ => rng.below(40),
    };
    let kind = rng.below(4);
    (0..n)
        .map(|_| match (kind, rng.below(8)) {
            (0, _) | (1, 0..=3) => char::from_u32(32 + rng.below(95) as u32).unwrap(),
            (1, _) | (2, 0..=5) => char::from_u32(GRAPH[rng.below(GRAPH.len())]).unwrap(),
            (_, 0..=3) => char::from_u32(rng.below(0x3000) as u32).unwrap(),
            _ => loop {
                if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                    break c;
                }
            },
        })
        .collect()
}
fn bytes(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.below(max + 1);
    match rng.below(4) {
        0 => rng.bytes(n),
        1 => (0..n).map(|_| *rng.pick(&[0xa0u8, 0x41, 0x00, 0x20, 0x22])).collect(),
        2 => (0..n).map(|_| 0x20 + rng.below(0x60) as u8).collect(),
        _ => {
            let mut v = rng.bytes(n);
            let k = rng.below(n + 1);
            for b in &mut v[k..] {
                *b = 0xa0;
            }
            v
        }
    }
}

fn strings(rng: &mut Rng) {
    let s = string(rng);
    let mut j = J::new("str");
    j.raw("in", &cps(&s));
    let r = guard("str", || {
        let p = Petscii::from_str_lossy(&s);
        let q: Petscii = s.clone().into();
        let t: Petscii = (&s).into();
        let u: Petscii = s.as_str().into();
        let back = p.to_string();
        let own: String = p.clone().into();
        (p.as_bytes().to_vec(), p.len(), p.is_empty(), vec![p == q, p == t, p == u, own == back], back)
    });
    match r {
        Ok((p, n, e, same, back)) => {
            j.s("res", "ok").bytes("p", &p).i("len", n as i64).b("emp", e).raw("same", &bools(&same)).raw("back", &cps(&back))
        }
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}
/// Two-byte identifiers: from text and back.
fn ids(rng: &mut Rng) {
    let s: String = string(rng).chars().take(rng.below(4)).collect();
    let mut j = J::new("id");
    j.raw("in", &cps(&s));
    let r = guard("id", || {
        let a: Id = s.as_str().into();
        let b: Id = s.clone().into();
        let c: Id = (&s).into();
        let d: Id = Petscii::from_str_lossy(&s).into();
        let e = Id::from_bytes(Petscii::from_str_lossy(&s).as_bytes());
        let p: Petscii = a.into();
        let t: String = a.into();
        let by: &[u8] = a.as_ref();
        let mut m = a;
        m[0] ^= 1;
        let same = vec![a == b, a == c, a == d, a == e, p.as_bytes() == by, t == a.to_string(), a[0] == by[0] && a[1] == by[1], m != a && m[1] == a[1]];
        (by.to_vec(), same, t)
    });
    match r {
        Ok((b, same, t)) => j.s("res", "ok").bytes("b", &b).raw("same", &bools(&same)).raw("back", &cps(&t)),
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}
fn byte_strings(rng: &mut Rng) {
    let b = bytes(rng, 40);
    let mut j = J::new("bytes");
    j.bytes("in", &b);
    let r = guard("bytes", || {
        let p = Petscii::from_bytes(&b);
        let x: &[u8] = p.as_ref();
        let y: &Petscii = p.as_ref();
        let mut same = vec![x == &b[..], y == &p, p.as_bytes() == &b[..], p.is_empty() == b.is_empty()];
        same.push(p.clone().into_iter().eq(b.iter().cloned()));
        same.push((&p).into_iter().eq(b.iter()));
        same.push((0..b.len()).all(|i| p[i] == b[i]));
        let mut c = b.clone();
        c.push(1);
        same.push(p != Petscii::from_bytes(&c));
        (p.to_string(), format!("{:?}", p), same, p.len())
    });
    match r {
        Ok((o, d, same, n)) => j.s("res", "ok").raw("out", &cps(&o)).raw("dbg", &cps(&d)).raw("same", &bools(&same)).i("len", n as i64),
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}
fn pad(rng: &mut Rng) {
    let b = bytes(rng, 24);
    let p = *rng.pick(&[0xa0u8, 0, 0x20, 0xff, 0x41]);
    let w = match rng.below(4) {
        0 => b.len(),
        1 => (b.len() + 1).saturating_sub(rng.below(3)),
        _ => rng.below(28),
    };
    let mut buf = rng.bytes(w);
    let mut j = J::new("pad");
    j.bytes("in", &b).i("pad", p as i64).i("w", w as i64);
    let r = guard("pad", || Petscii::from_bytes(&b).write_bytes_with_padding(&mut buf, p).is_ok());
    j.s("res", match r {
        Ok(true) => "ok",
        Ok(false) => "err",
        Err(_) => "panic",
    });
    j.bytes("out", &buf);
    emit(j.end());
    let mut j = J::new("unpad");
    let src = if rng.chance(1, 2) { buf } else { b };
    j.bytes("in", &src).i("pad", p as i64);
    match guard("unpad", || Petscii::from_padded_bytes(&src, p).as_bytes().to_vec()) {
        Ok(o) => j.s("res", "ok").bytes("out", &o),
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}
fn sprite(b: &[u8], rng: &mut Rng) {
    let mut j = J::new("sprite");
    j.bytes("b", b);
    let mut back = rng.bytes(63);
    match guard("sprite", || {
        let s = Sprite::from_bytes(b);
        s.to_bytes(&mut back);
        s.to_unicode()
    }) {
        Ok(t) => {
            // every line ends with a line feed
            let mut v: Vec<String> = t.split('\n').map(|l| cps(l)).collect();
            if t.ends_with('\n') {
                v.pop();
            } else {
                v.push("[0]".into());
            }
            j.s("res", "ok").bytes("back", &back).raw("lines", &jlist(&v))
        }
        Err(e) => j.s("res", &e),
    };
    emit(j.end());
}

/// text WHAT SEED EVENTS: what is petscii or sprite
pub fn run(what: &str, seed: u64, events: usize) {
    let mut rng = Rng::new(seed);
    let lines = || OUT.lock().unwrap().as_ref().map(|o| o.lines).unwrap_or(0);
    if what == "petscii" {
        chars();
        while lines() < events {
            match rng.below(5) {
                0 => strings(&mut rng),
                1 => byte_strings(&mut rng),
                2 => ids(&mut rng),
                _ => pad(&mut rng),
            }
        }
    } else {
        // each pixel alone, then random pictures
        for i in 0..504 {
            let mut b = vec![0u8; 63];
            b[i / 8] = 1 << (i % 8);
            sprite(&b, &mut rng);
        }
        while lines() < events {
            let b = match rng.below(3) {
                0 => vec![rng.next() as u8; 63],
                _ => rng.bytes(63),
            };
            sprite(&b, &mut rng);
        }
    }
}
