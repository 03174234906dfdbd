//! Random configurations and (mostly well-formed) records.
use crate::base::*;
use crate::refdec::sid_len;

pub struct W { pub v: Vec<u8>, pub be: bool }
impl W {
    pub fn new(be: bool) -> Self { W { v: vec![], be } }
    pub fn int(&mut self, x: u64, n: usize) {
        for i in 0..n { let s = if self.be { n - 1 - i } else { i }; self.v.push((x >> (8 * s)) as u8); }
    }
    pub fn u16(&mut self, x: u64) { self.int(x, 2) }
    pub fn u32(&mut self, x: u64) { self.int(x, 4) }
    pub fn u64(&mut self, x: u64) { self.int(x, 8) }
    pub fn r(&mut self, r: &mut Rng, plan: &[usize]) { for n in plan { let x = r.word(); self.int(x, *n) } }
}
pub fn cfg(r: &mut Rng) -> Cfg {
    let st = match r.below(6) {
        0 => 0,
        1 => 1 << r.below(25),
        2 => (1 << r.below(25)) | (1 << r.below(25)),
        3 => (1 << 25) - 1,
        4 => r.u64() & r.u64() & ((1 << 25) - 1),
        _ => r.u64() & ((1 << 25) - 1),
    };
    let rf = match r.below(12) { 0 => r.word(), 1 => 32 << r.below(59), _ => r.below(32) };
    let mask = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 1 << r.below(64), 2 => u64::MAX, _ => r.u64() & r.u64() & r.u64() };
    Cfg { st, rf, all: r.p(2, 3), hw: r.p(1, 2), ru: mask(r), ri: mask(r) }
}
/// a length that is sometimes a boundary
pub fn len(r: &mut Rng) -> usize {
    match r.below(24) {
        0 => 0,
        1 => *r.pick(&[254, 255, 256, 257, 511, 512, 513]),
        2 => if r.p(1, 4) { *r.pick(&[1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192]) } else { 8 },
        3 => if r.p(1, 24) { *r.pick(&[16383, 16384, 16385, 20000, 32768, 40000, 65535, 65536, 65544, 70000]) } else { 1 },
        4 => 8 * r.us(6),
        _ => r.us(40),
    }
}
pub fn name(r: &mut Rng, w: &mut W) {
    let n = len(r);
    let mut b: Vec<u8> = (0..n).map(|_| if r.p(1, 12) { 0 } else { b'a' + r.below(26) as u8 }).collect();
    if r.p(1, 8) { b = r.bytes(n); }
    match r.below(5) {
        0 => {}
        1 => b.push(0),
        2 => b.extend(vec![0; r.us(12)]),
        _ => { b.push(0); while b.len() % 8 != 0 { b.push(0) } }
    }
    w.v.extend(b);
}
/// `n` for data of about `n` elements; sometimes a lie
pub fn lie(r: &mut Rng, n: usize, bad: bool) -> u64 {
    if bad && r.p(1, 6) {
        match r.below(6) {
            0 => u64::MAX / (1 << r.below(8)),
            1 => r.word(),
            2 => n as u64 + 1,
            3 => (1 << 61) + r.below(3),
            4 => (1 << 60) + r.below(8),
            _ => (n as u64).wrapping_sub(1),
        }
    } else { n as u64 }
}
pub fn count(r: &mut Rng) -> usize { match r.below(10) { 0 => 0, 1 => if r.p(1, 8) { 200 + r.us(200) } else { 1 }, _ => r.us(8) } }
pub fn words(r: &mut Rng, w: &mut W, n: usize) { for _ in 0..n { let x = r.word(); w.u64(x) } }
pub fn read_group(r: &mut Rng, w: &mut W, c: &Cfg, bad: bool) {
    let el = 1 + (c.rf >> 2 & 1) as usize + (c.rf >> 4 & 1) as usize;
    let n = count(r);
    let l = lie(r, n, bad);
    w.u64(l);
    words(r, w, (c.rf & 3).count_ones() as usize + el * n);
}
pub fn sample(r: &mut Rng, w: &mut W, c: &Cfg, bad: bool) {
    let on = |b: u32| c.st >> b & 1 != 0;
    if on(16) { words(r, w, 1) }
    if on(0) { words(r, w, 1) }
    if on(1) { w.r(r, &[4, 4]) }
    for b in [2, 3, 6, 9] { if on(b) { words(r, w, 1) } }
    if on(7) { w.r(r, &[4, 4]) }
    if on(8) { words(r, w, 1) }
    if on(4) { if c.rf & 8 != 0 { read_group(r, w, c, bad) } else { words(r, w, 1 + (c.rf & 23).count_ones() as usize) } }
    if on(5) { let n = count(r); let l = lie(r, n, bad); w.u64(l); words(r, w, n) }
    if on(10) {
        let n = len(r);
        let l = lie(r, n, bad);
        w.u32(l);
        let b = r.bytes(n);
        w.v.extend(b);
        for _ in 0..(8 - (4 + n) % 8) % 8 { w.v.push(r.u64() as u8) }
    }
    if on(11) { let n = count(r); let l = lie(r, n, bad); w.u64(l); if c.hw { words(r, w, 1) } words(r, w, 3 * n) }
    let regs = |r: &mut Rng, w: &mut W, m: u64| {
        let abi = if r.p(1, 10) { r.word() } else { r.below(3) };
        w.u64(abi);
        if abi != 0 { words(r, w, m.count_ones() as usize) }
    };
    if on(12) { regs(r, w, c.ru) }
    if on(13) {
        let n = len(r);
        let l = lie(r, n, bad);
        w.u64(l);
        let b = r.bytes(n);
        w.v.extend(b);
        if n != 0 { let d = match r.below(4) { 0 => n as u64, 1 => 0, 2 if bad => r.word(), _ => r.below(n as u64 + 1) }; w.u64(d) }
    }
    if on(14) || on(24) { words(r, w, 1) }
    for b in [15, 17] { if on(b) { words(r, w, 1) } }
    if on(18) { regs(r, w, c.ri) }
    for b in [19, 21, 22, 23] { if on(b) { words(r, w, 1) } }
    if on(20) { let n = len(r); let l = lie(r, n, bad); w.u64(l); let b = r.bytes(n); w.v.extend(b) }
}
pub fn body(r: &mut Rng, w: &mut W, c: &Cfg, ty: u32, misc: u16, bad: bool) {
    match ty {
        1 => { w.r(r, &[4, 4, 8, 8, 8]); name(r, w) }
        2 => w.r(r, &[8, 8]),
        3 => { w.r(r, &[4, 4]); name(r, w) }
        4 | 7 => w.r(r, &[4, 4, 4, 4, 8]),
        5 | 6 => w.r(r, &[8, 8, 8]),
        8 => { w.r(r, &[4, 4]); words(r, w, 1 + (c.rf & 23).count_ones() as usize) }
        9 => sample(r, w, c, bad),
        10 => {
            w.r(r, &[4, 4, 8, 8, 8]);
            if misc & 0x4000 != 0 {
                let l = match r.below(4) { 0 => 20, 1 if bad => r.below(256), _ => r.below(21) };
                w.v.push(l as u8);
                w.r(r, &[1, 2]);
                let b = r.bytes(20);
                w.v.extend(b);
            } else { w.r(r, &[4, 4, 8, 8]) }
            w.r(r, &[4, 4]);
            name(r, w)
        }
        11 => w.r(r, &[8, 8, 8]),
        12 => w.r(r, &[4, 4]),
        13 => w.r(r, &[8]),
        14 => {}
        15 => w.r(r, &[4, 4]),
        16 => { w.r(r, &[4, 4]); let n = if r.p(1, 2) { 7 } else { count(r) }; let l = lie(r, n, bad); w.u64(l); words(r, w, 2 * n) }
        17 => { w.r(r, &[8, 4, 2, 2]); name(r, w) }
        18 => { w.r(r, &[2, 2, 4]); let b = r.bytes(8); w.v.extend(b) }
        19 => { w.r(r, &[8]); name(r, w) }
        20 => {
            w.r(r, &[8]);
            let (a, b) = match r.below(4) { 0 => (0, len(r)), 1 => (len(r), 0), _ => (len(r), len(r)) };
            let l = lie(r, a, bad);
            w.u16(l);
            let l = lie(r, b, bad);
            w.u16(l);
            let x = r.bytes(a + b);
            w.v.extend(x);
            while w.v.len() % 8 != 0 { w.v.push(r.u64() as u8) }
        }
        21 => w.r(r, &[8]),
        _ => { let n = len(r); let b = r.bytes(n); w.v.extend(b) }
    }
}
pub fn ty(r: &mut Rng) -> u32 { match r.below(10) { 0 => r.word() as u32, 1 => r.below(30) as u32, _ => 1 + r.below(21) as u32 } }
pub fn misc(r: &mut Rng) -> u16 { match r.below(4) { 0 => 0x4000, 1 => 0x2000, 2 => 1 << r.below(16), _ => r.u64() as u16 } }
/// Appends one record.
pub fn record(r: &mut Rng, out: &mut Vec<u8>, c: &Cfg, be: bool, ty: u32, misc: u16, bad: bool) {
    let mut w = W::new(be);
    body(r, &mut w, c, ty, misc, bad);
    // fields the record type does not use
    if ![1, 3, 10, 17, 19].contains(&ty) && r.p(1, 6) { let n = 8 * r.us(4); let b = r.bytes(n); w.v.extend(b); }
    let t = if ty == 1 || ty == 9 { 0 } else { sid_len(c) };
    if t > 0 { for b in [1, 2, 6, 9, 7, 16] { if c.st >> b & 1 != 0 { w.r(r, if b == 1 || b == 7 { &[4, 4] } else { &[8] }) } } }
    if w.v.len() > 65500 { w.v.truncate(65496); }
    let mut size = 8 + w.v.len() as u64;
    if bad { match r.below(24) {
        0 => size = r.below(12),
        1 => size = size.saturating_sub(r.below(40)),
        2 => size += r.below(40),
        3 => size = r.below(65536),
        _ => {}
    } }
    let mut h = W::new(be);
    h.u32(ty as u64);
    h.u16(misc as u64);
    h.u16(size);
    out.extend(h.v);
    out.extend(w.v);
}
pub fn damage(r: &mut Rng, d: &mut Vec<u8>) {
    if d.is_empty() { return; }
    match r.below(5) {
        0 => { let n = r.us(d.len() + 1); d.truncate(n) }
        1 => { let n = d.len() - r.us(d.len().min(9)); d.truncate(n) }
        2 => { let i = r.us(d.len()); d[i] ^= 1 << r.below(8) }
        3 => { let i = r.us(d.len()); d[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]) }
        _ => { let n = r.us(20); let b = r.bytes(n); d.extend(b) }
    }
}
