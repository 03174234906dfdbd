//! Independent reference: the kernel's record layouts, decoded from one plain byte slice.
//! Nothing here uses the crate under test.
use crate::base::*;

/// Acceptable error kinds.
#[derive(Clone, Debug, PartialEq)]
pub struct K(pub &'static [&'static str]);
pub const EOF: K = K(&["Eof"]);
pub const INV: K = K(&["InvalidRecord"]);
pub const UCFG: K = K(&["UnsupportedConfig"]);
pub const UDATA: K = K(&["UnsupportedData"]);
/// n * size does not fit usize: reported as such, or as the end of the data when reading one by one
pub const OVF: K = K(&["InvalidRecord", "Eof"]);
pub type R<T> = Result<T, K>;

pub struct Dec<'a> {
    pub d: &'a [u8], pub pos: usize, pub base: usize, pub be: bool,
    /// a typed slice was found at an address where it cannot be borrowed (see KF1)
    pub misaligned: bool,
    /// something needed to know what follows the last byte
    pub hit_end: bool,
}
impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8], base: usize, be: bool) -> Self { Dec { d, pos: 0, base, be, misaligned: false, hit_end: false } }
    pub fn left(&self) -> usize { self.d.len() - self.pos }
    pub fn bytes(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.left() { self.hit_end = true; return Err(EOF); }
        let r = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn int(&mut self, n: usize) -> R<u64> {
        let be = self.be;
        let b = self.bytes(n)?;
        let mut v = 0u64;
        for i in 0..n { v = v << 8 | b[if be { i } else { n - 1 - i }] as u64; }
        Ok(v)
    }
    pub fn u8(&mut self) -> R<u64> { self.int(1) }
    pub fn u16(&mut self) -> R<u64> { self.int(2) }
    pub fn u32(&mut self) -> R<u64> { self.int(4) }
    pub fn u64(&mut self) -> R<u64> { self.int(8) }
    pub fn rest(&mut self) -> &'a [u8] { self.hit_end = true; let r = &self.d[self.pos..]; self.pos = self.d.len(); r }
    pub fn name(&mut self) -> &'a [u8] { trim(self.rest()) }
    /// `n` elements of `words` u64s each, alignment 8
    pub fn words(&mut self, n: u64, words: usize) -> R<Vec<u64>> {
        if n > 0 && (self.base + self.pos) % 8 != 0 { self.misaligned = true; }
        if n as u128 * (8 * words) as u128 > usize::MAX as u128 { self.hit_end = true; return Err(OVF); }
        let mut v = vec![];
        for _ in 0..n { for _ in 0..words { v.push(self.u64()?); } }
        Ok(v)
    }
}
pub fn trim(mut b: &[u8]) -> &[u8] { while let [h @ .., 0] = b { b = h; } b }

fn o(x: Option<u64>) -> String { match x { Some(v) => format!("{v:#x}"), None => "-".into() } }
pub fn group_str(rf: u64, te: u64, tr: u64, data: &[u64]) -> String {
    let el = 1 + (rf >> 2 & 1) as usize + (rf >> 4 & 1) as usize;
    let mut s = format!("group te={} tr={} n={}", o((rf & 1 != 0).then_some(te)), o((rf & 2 != 0).then_some(tr)), data.len() / el);
    for c in data.chunks(el) {
        let id = (rf & 4 != 0).then(|| c[1]);
        let lost = (rf & 16 != 0).then(|| c[el - 1]);
        s += &format!(" [{:#x} {} {}]", c[0], o(id), o(lost));
    }
    s
}
pub fn read_value(d: &mut Dec, c: &Cfg) -> R<(String, u64, [u64; 5])> {
    if c.rf & 8 != 0 || c.rf >> 5 != 0 { return Err(UCFG); }
    let mut f = [0u64; 5];
    f[0] = d.u64()?;
    for (i, bit) in [(1, 1), (2, 2), (3, 4), (4, 16)] { if c.rf & bit != 0 { f[i] = d.u64()?; } }
    let g = |i: usize, bit: u64| o((c.rf & bit != 0).then_some(f[i]));
    Ok((format!("value {:#x} te={} tr={} id={} lost={}", f[0], g(1, 1), g(2, 2), g(3, 4), g(4, 16)), c.rf, f))
}
pub fn read_group(d: &mut Dec, c: &Cfg) -> R<String> {
    if c.rf & 8 == 0 || c.rf >> 5 != 0 { return Err(UCFG); }
    let nr = d.u64()?;
    let te = if c.rf & 1 != 0 { d.u64()? } else { 0 };
    let tr = if c.rf & 2 != 0 { d.u64()? } else { 0 };
    let el = 1 + (c.rf >> 2 & 1) + (c.rf >> 4 & 1);
    let n = match nr.checked_mul(el) { Some(n) => n, None => return Err(INV) };
    let data = d.words(n, 1)?;
    Ok(group_str(c.rf, te, tr, &data))
}
fn ws(v: &[u64]) -> String { format!("{v:x?}") }
pub fn branch_str(w: &[u64]) -> String {
    let b = w[2];
    format!("[{:x} {:x} {}{}{}{} {:x} {:x}]", w[0], w[1], b & 1, b >> 1 & 1, b >> 2 & 1, b >> 3 & 1, b >> 4 & 0xffff, b >> 20 & 0xf)
}
pub fn data_src_str(w: u64) -> String {
    let f = |sh: u32, n: u32| (w >> sh) & ((1 << n) - 1);
    format!("op={:x} lvl={:x} snoop={:x} lock={:x} dtlb={:x} num={:x} rem={} blk={:x} hops={:x}",
        f(0, 5), f(5, 14), f(19, 5) << 19 | f(38, 2) << 38, f(24, 2), f(26, 7), f(33, 4), f(37, 1) != 0, f(40, 3), f(43, 3))
}
fn regs(d: &mut Dec, mask: u64) -> R<String> {
    let abi = d.u64()?;
    let mask = if abi == 0 { 0 } else { mask };
    let v = d.words(mask.count_ones() as u64, 1)?;
    Ok(format!("abi={abi:x} mask={mask:x} {}", ws(&v)))
}
pub const SAMPLE_FIELDS: [&str; 25] = ["ip", "pid", "tid", "time", "addr", "id", "stream_id", "cpu", "period", "values", "callchain", "raw",
    "lbr_hw_index", "lbr", "regs_user", "stack_user", "weight", "data_src", "transaction", "regs_intr", "phys_addr", "aux", "cgroup",
    "data_page_size", "code_page_size"];
/// The fields in the order of SAMPLE_FIELDS.
pub fn sample(d: &mut Dec, c: &Cfg) -> R<Vec<Option<String>>> {
    let mut f: Vec<Option<String>> = vec![None; 25];
    let st = c.st;
    let on = |b: u32| st >> b & 1 != 0;
    fn x(v: u64) -> Option<String> { Some(format!("{v:#x}")) }
    let mut id = None;
    if on(16) { id = x(d.u64()?); }
    if on(0) { f[0] = x(d.u64()?); }
    if on(1) { f[1] = x(d.u32()?); f[2] = x(d.u32()?); }
    if on(2) { f[3] = x(d.u64()?); }
    if on(3) { f[4] = x(d.u64()?); }
    if on(6) { id = x(d.u64()?); }
    f[5] = id;
    if on(9) { f[6] = x(d.u64()?); }
    if on(7) { f[7] = x(d.u32()?); d.u32()?; }
    if on(8) { f[8] = x(d.u64()?); }
    if on(4) {
        f[9] = Some(if c.rf & 8 != 0 { read_group(d, c)? } else {
            let (_, rf, v) = read_value(d, c)?;
            let mut w = vec![v[0]];
            if rf & 4 != 0 { w.push(v[3]) }
            if rf & 16 != 0 { w.push(v[4]) }
            group_str(rf, v[1], v[2], &w)
        });
    }
    if on(5) { let n = d.u64()?; f[10] = Some(ws(&d.words(n, 1)?)); }
    if on(10) {
        let n = d.u32()? as usize;
        f[11] = Some(hex(d.bytes(n)?));
        let used = 4 + n;
        d.bytes((8 - used % 8) % 8)?;
    }
    if on(11) {
        let n = d.u64()?;
        if c.hw { f[12] = x(d.u64()?); }
        let w = d.words(n, 3)?;
        f[13] = Some(w.chunks(3).map(branch_str).collect());
    }
    if on(12) { f[14] = Some(regs(d, c.ru)?); }
    if on(13) {
        let n = d.u64()? as usize;
        let b = d.bytes(n)?;
        let dy = if n == 0 { 0 } else { d.u64()? };
        if dy > n as u64 { return Err(INV); }
        f[15] = Some(hex(&b[..dy as usize]));
    }
    if on(14) || on(24) { f[16] = x(d.u64()?); }
    if on(15) { f[17] = Some(data_src_str(d.u64()?)); }
    if on(17) { f[18] = x(d.u64()?); }
    if on(18) { f[19] = Some(regs(d, c.ri)?); }
    if on(19) { f[20] = x(d.u64()?); }
    if on(21) { f[22] = x(d.u64()?); }
    if on(22) { f[23] = x(d.u64()?); }
    if on(23) { f[24] = x(d.u64()?); }
    if on(20) { let n = d.u64()? as usize; f[21] = Some(hex(d.bytes(n)?)); }
    Ok(f)
}
pub fn sample_str(f: &[Option<String>]) -> String {
    let mut s = String::from("Sample");
    for (n, v) in SAMPLE_FIELDS.iter().zip(f) { s += &format!(" {n}={}", v.as_deref().unwrap_or("-")); }
    s
}
pub fn sid_len(c: &Cfg) -> usize {
    if !c.all { return 0; }
    8 * [1, 2, 6, 9, 7, 16].iter().filter(|b| c.st >> **b & 1 != 0).count()
}
pub fn sid(d: &mut Dec, c: &Cfg) -> R<String> {
    let mut f = [None; 6];
    if c.all {
        let on = |b: u32| c.st >> b & 1 != 0;
        if on(1) { f[0] = Some(d.u32()?); f[1] = Some(d.u32()?); }
        if on(2) { f[2] = Some(d.u64()?); }
        if on(6) { f[3] = Some(d.u64()?); }
        if on(9) { f[4] = Some(d.u64()?); }
        if on(7) { f[5] = Some(d.u32()?); d.u32()?; }
        if on(16) { let i = d.u64()?; f[3] = f[3].or(Some(i)); }
    }
    Ok(sid_str(f))
}
pub fn sid_str(f: [Option<u64>; 6]) -> String {
    format!("pid={} tid={} time={} id={} stream={} cpu={}", o(f[0]), o(f[1]), o(f[2]), o(f[3]), o(f[4]), o(f[5]))
}
fn round(v: usize) -> usize { let mut r = v; while r % 8 != 4 { r += 1; } r }
pub const TYPES: [&str; 22] = ["", "mmap", "lost", "comm", "exit", "throttle", "unthrottle", "fork", "read", "sample", "mmap2", "aux", "itrace_start",
    "lost_samples", "switch", "switch_cpu_wide", "namespaces", "ksymbol", "bpf_event", "cgroup", "text_poke", "aux_output_hw_id"];
pub fn type_name(ty: u32) -> &'static str { if (1..22).contains(&ty) { TYPES[ty as usize] } else { "unknown" } }
pub fn body(d: &mut Dec, c: &Cfg, ty: u32, misc: u16) -> R<String> {
    Ok(match ty {
        1 => format!("Mmap {:x} {:x} {:x} {:x} {:x} {}", d.u32()?, d.u32()?, d.u64()?, d.u64()?, d.u64()?, hex(d.name())),
        2 => format!("Lost {:x} {:x}", d.u64()?, d.u64()?),
        3 => format!("Comm {:x} {:x} {}", d.u32()?, d.u32()?, hex(d.name())),
        4 | 7 => {
            let (pid, ppid, tid, ptid, time) = (d.u32()?, d.u32()?, d.u32()?, d.u32()?, d.u64()?);
            format!("Exit pid={pid:x} ppid={ppid:x} tid={tid:x} ptid={ptid:x} time={time:x}")
        }
        5 | 6 => format!("Throttle {:x} {:x} {:x}", d.u64()?, d.u64()?, d.u64()?),
        8 => { let (pid, tid) = (d.u32()?, d.u32()?); format!("Read {pid:x} {tid:x} {}", read_value(d, c)?.0) }
        9 => sample_str(&sample(d, c)?),
        10 => {
            let h = format!("Mmap2 {:x} {:x} {:x} {:x} {:x}", d.u32()?, d.u32()?, d.u64()?, d.u64()?, d.u64()?);
            let det = if misc & 0x4000 != 0 {
                let n = d.u8()? as usize;
                d.bytes(3)?;
                let b = d.bytes(20)?;
                if n > 20 { return Err(INV); }
                format!("- - - - build={}", hex(&b[..n]))
            } else { format!("{:x} {:x} {:x} {:x} -", d.u32()?, d.u32()?, d.u64()?, d.u64()?) };
            format!("{h} {det} prot={:x} flags={:x} {}", d.u32()?, d.u32()?, hex(d.name()))
        }
        11 => format!("Aux {:x} {:x} {:x}", d.u64()?, d.u64()?, d.u64()?),
        12 => format!("ITrace {:x} {:x}", d.u32()?, d.u32()?),
        13 => format!("LostSamples {:x}", d.u64()?),
        14 => "Switch".into(),
        15 => format!("SwitchCpuWide {} {:x} {:x}", if misc & 0x2000 != 0 { "out" } else { "in" }, d.u32()?, d.u32()?),
        16 => {
            let (pid, tid, n) = (d.u32()?, d.u32()?, d.u64()?);
            let w = d.words(n, 2)?;
            ns_str(pid, tid, &w)
        }
        17 => format!("KSymbol {:x} {:x} {:x} {:x} {}", d.u64()?, d.u32()?, d.u16()?, d.u16()?, hex(d.name())),
        18 => format!("Bpf {:x} {:x} {:x} {}", d.u16()?, d.u16()?, d.u32()?, hex(d.bytes(8)?)),
        19 => format!("CGroup {:x} {}", d.u64()?, hex(d.name())),
        20 => {
            let (a, ol, nl) = (d.u64()?, d.u16()? as usize, d.u16()? as usize);
            let b = d.bytes(round(ol + nl))?;
            format!("TextPoke {a:x} {} {}", hex(&b[..ol]), hex(&b[ol..ol + nl]))
        }
        21 => format!("HwId {:x}", d.u64()?),
        _ => format!("Unknown {}", hex(d.rest())),
    })
}
pub fn ns_str(pid: u64, tid: u64, w: &[u64]) -> String {
    let mut s = format!("Ns {pid:x} {tid:x} {}", ws(w));
    // the kernel's order: net, uts, ipc, pid, user, mnt, cgroup
    for (n, i) in [("net", 0), ("uts", 1), ("ipc", 2), ("pid", 3), ("user", 4), ("cgroup", 6)] {
        s += &match w.get(2 * i..2 * i + 2) { Some(e) => format!(" {n}={:x}:{:x}", e[0], e[1]), None => format!(" {n}=-") };
    }
    s
}
/// One record of a stream as the properties describe it.
#[derive(Debug)]
pub struct Frame<'a> { pub ty: u32, pub misc: u16, pub body: &'a [u8], pub body_off: usize, pub sid: String, pub size: usize }
/// Splits the first record off `d.d`; consumes nothing of `d` on error.
pub fn frame<'a>(d: &mut Dec<'a>, c: &Cfg) -> R<Frame<'a>> {
    let ty = d.u32()? as u32;
    let misc = d.u16()? as u16;
    let size = d.u16()? as usize;
    frame_rest(d, c, ty, misc, size)
}
pub fn frame_rest<'a>(d: &mut Dec<'a>, c: &Cfg, ty: u32, misc: u16, size: usize) -> R<Frame<'a>> {
    if size < 8 { return Err(INV); }
    let off = d.pos;
    let all = d.bytes(size - 8)?;
    let t = if ty == 1 || ty == 9 { 0 } else { sid_len(c) };
    if t > all.len() { return Err(INV); }
    let (b, s) = all.split_at(all.len() - t);
    let sid = if t == 0 { sid_str([None; 6]) } else { sid(&mut Dec::new(s, 0, d.be), c)? };
    Ok(Frame { ty, misc, body: b, body_off: d.base + off, sid, size })
}
pub const ATTR_SIZES: [u32; 9] = [64, 72, 80, 96, 104, 112, 120, 128, 136];
pub fn attr(d: &mut Dec) -> R<String> {
    let ty = d.u32()?;
    let size = d.u32()?;
    if !ATTR_SIZES.contains(&(size as u32)) && size <= 136 { return Err(INV); }
    let b = d.bytes(size as usize - 8)?;
    let mut p = Dec::new(b, 0, d.be);
    let mut f = vec![ty, size];
    // widths of the fields per published size
    let plan: [(u32, &[usize]); 9] = [(64, &[8, 8, 8, 8, 8, 4, 4, 8]), (72, &[8]), (80, &[8]), (96, &[8, 4, 4]), (104, &[8]), (112, &[4, 2, 2]), (120, &[4, 4]), (128, &[8]), (136, &[8])];
    for (v, ws) in plan {
        for w in ws { f.push(if size as u32 >= v { p.int(*w)? } else { 0 }); }
    }
    f[18] = 0; // reserved, not fields
    f[20] = 0;
    if size > 136 && p.rest().iter().any(|b| *b != 0) { return Err(UDATA); }
    Ok(attr_str(&f))
}
pub fn attr_str(f: &[u64]) -> String { format!("attr {f:x?}") }
