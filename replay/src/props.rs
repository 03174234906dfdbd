//! One engine per property. Each case is determined by its seed alone.
use crate::base::*;
use crate::dump::*;
use crate::gen;
use crate::refdec::{self, Dec, K, R};
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashSet;
use std::error::Error as _;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Stat { pub cases: u64, pub compared: u64, pub skipped: u64, pub keys: HashSet<u64>, pub samples: Vec<String> }
impl Stat {
    /// a comparison was made; `key` is what makes it different from others
    fn hit(&mut self, key: impl Hash) {
        self.compared += 1;
        if self.keys.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.keys.insert(h.finish()) && self.samples.len() < 5 { let mut c = context(); c.truncate(600); self.samples.push(c); }
        }
    }
}
pub type Res = Result<(), String>;
pub type Engine = fn(&mut Rng, &mut Stat) -> Res;
pub fn engine(p: &str) -> Option<Engine> {
    Some(match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11,
        "C12" => c12, "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => c17, "C18" => c18, "C19" => c19, "C20" => c20, "C21" => c21, "C22" => c22,
        _ => return None,
    })
}

// ------------------------------------------------------------------ context
#[derive(Clone, Default)]
struct Ctx { data: Vec<u8>, off: usize, src: String, cfg: Cfg, end: Option<End>, note: String }
thread_local!(static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));
pub fn context() -> String {
    CTX.with(|c| { let c = c.borrow(); format!("note: {}\nendian: {:?}\nconfig: {:x?}\nsource: {}\ndata ({} bytes at alignment offset {}): {}", c.note, c.end, c.cfg, c.src, c.data.len(), c.off, hex(&c.data)) })
}
fn set(data: &[u8], off: usize, src: &SrcSpec, cfg: &Cfg, end: End, note: impl Into<String>) {
    let mut s = format!("{src:?}");
    if s.len() > 400 { s.truncate(400); s += "..."; }
    CTX.with(|c| *c.borrow_mut() = Ctx { data: data.to_vec(), off, src: s, cfg: cfg.clone(), end: Some(end), note: note.into() });
}
fn note(s: impl Into<String>) { CTX.with(|c| { let mut c = c.borrow_mut(); c.note = s.into() }) }
fn fail<T>(m: impl Into<String>) -> Result<T, String> { Err(format!("{}\n{}", m.into(), context())) }
macro_rules! bail { ($($t:tt)*) => { return fail(format!($($t)*)) } }
macro_rules! same { ($a:expr, $b:expr, $($t:tt)*) => { { let (a, b) = (&$a, &$b); if *a != *b { return fail(format!("{}\n expected: {:?}\n got:      {:?}", format!($($t)*), a, b)); } } } }

// ------------------------------------------------------------------ whole records
#[derive(Clone, Debug, PartialEq)]
struct Rec { method: Option<&'static str>, rec: String, meta: Option<(u32, u16, String)>, ty: Option<u32> }
fn of_seen(s: Seen) -> Rec { Rec { method: Some(s.method), rec: s.rec, meta: Some((s.ty, s.misc, s.sid)), ty: Some(s.ty) } }
fn of_record(r: Record) -> Rec {
    let d = r.dump();
    let (m, s) = d.split_once(": ").unwrap();
    let method = if m == "unknown" { "unknown" } else { refdec::TYPES.iter().copied().find(|t| *t == m).unwrap_or("other") };
    Rec { method: Some(method), rec: s.into(), meta: None, ty: if let Record::Unknown { ty, .. } = r { Some(ty) } else { None } }
}
const APIS: [&str; 6] = ["parse_record", "Record::parse", "parse_record_with_header", "Record::parse_with_header", "parse_metadata + parse", "parse_metadata_with_header + parse"];
struct RecJob(usize);
impl Job for RecJob {
    type Out = Result<Rec, String>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
        let k = |e: ParseError| kind(&e).to_string();
        match self.0 {
            0 => p.parse_record(All).map(of_seen).map_err(k),
            1 => p.parse::<Record>().map(of_record).map_err(k),
            2 => { let h: perf_event_header = p.parse().map_err(k)?; p.parse_record_with_header(All, h).map(of_seen).map_err(k) }
            3 => { let h: perf_event_header = p.parse().map_err(k)?; Record::parse_with_header(p, h).map(of_record).map_err(k) }
            4 => {
                let (mut q, m) = p.parse_metadata().map_err(k)?;
                let rec = typed(&mut q, m.ty())?;
                Ok(Rec { method: None, rec, meta: Some((m.ty(), m.misc(), m.sample_id().dump())), ty: Some(m.ty()) })
            }
            _ => {
                let h: perf_event_header = p.parse().map_err(k)?;
                let (mut q, m) = p.parse_metadata_with_header(h).map_err(k)?;
                let rec = typed(&mut q, m.ty())?;
                Ok(Rec { method: None, rec, meta: Some((m.ty(), m.misc(), m.sample_id().dump())), ty: Some(m.ty()) })
            }
        }
    }
}
/// metadata and the rest of the body
struct MetaJob(bool);
impl Job for MetaJob {
    type Out = Result<(u32, u16, String, Vec<u8>), String>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
        let k = |e: ParseError| kind(&e).to_string();
        if self.0 {
            let h: perf_event_header = p.parse().map_err(k)?;
            let (mut q, m) = p.parse_metadata_with_header(h).map_err(k)?;
            let b = q.parse_rest().map_err(k)?.into_owned();
            Ok((m.ty(), m.misc(), m.sample_id().dump(), b))
        } else {
            let (mut q, m) = p.parse_metadata().map_err(k)?;
            let b = q.parse_rest().map_err(k)?.into_owned();
            Ok((m.ty(), m.misc(), m.sample_id().dump(), b))
        }
    }
}
struct TypedJob { ty: u32 }
impl Job for TypedJob {
    type Out = Got;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Got { typed(p, self.ty) }
}
struct Case { cfg: Cfg, end: End, data: Vec<u8>, ty: u32, misc: u16 }
/// One record of one of `types` (any if empty), possibly followed by more bytes; `bad` allows damage.
fn rec_case(r: &mut Rng, types: &[u32], bad: bool) -> Case {
    let cfg = gen::cfg(r);
    let end = *r.pick(&ENDS);
    let ty = if types.is_empty() { gen::ty(r) } else { *r.pick(types) };
    let misc = gen::misc(r);
    let mut data = vec![];
    gen::record(r, &mut data, &cfg, end.be(), ty, misc, bad);
    if r.p(1, 3) { let n = r.us(24); data.extend(r.bytes(n)); }
    if bad && r.p(1, 3) { gen::damage(r, &mut data); }
    Case { cfg, end, data, ty, misc }
}
struct Exp<'a> { frame: R<refdec::Frame<'a>>, rec: R<String>, misaligned: bool }
fn expect<'a>(data: &'a [u8], off: usize, be: bool, cfg: &Cfg) -> Exp<'a> {
    let mut d = Dec::new(data, off, be);
    match refdec::frame(&mut d, cfg) {
        Err(k) => Exp { frame: Err(k.clone()), rec: Err(k), misaligned: false },
        Ok(f) => {
            let mut b = Dec::new(f.body, f.body_off, be);
            let rec = refdec::body(&mut b, cfg, f.ty, f.misc);
            Exp { frame: Ok(f), rec, misaligned: b.misaligned }
        }
    }
}
/// KF1: a native-endian borrowed misaligned typed slice; see known-findings
fn kf1(e: End, src: &SrcSpec, misaligned: bool) -> bool { e.native() && src.borrows() && misaligned }
fn offset(r: &mut Rng) -> usize { if r.p(1, 6) { r.us(8) } else { 0 } }

// ------------------------------------------------------------------ primitive operations
#[derive(Clone, Debug)]
enum Op { U8, U16, U32, U64, Arr(usize), Bytes(usize), Rest, Trim, If(bool, usize), IfWith(bool, Box<Op>, Box<Op>), With(Box<Op>), Rep(usize, usize), Slice(usize, usize), Header, RepZ(usize), RepVar(usize) }
const ARR: [usize; 8] = [0, 1, 3, 5, 8, 16, 20, 33];
const SZ: [usize; 6] = [1, 2, 4, 8, 16, 24];
fn op(r: &mut Rng, left: usize, depth: u32, hostile: bool) -> Op {
    let n = |r: &mut Rng, el: usize| {
        let fit = left / el;
        match r.below(10) { 0 => 0, 1 => fit, 2 => fit + 1, 3 => fit.saturating_sub(1), 4 if hostile => r.word() as usize, 5 if hostile => (usize::MAX / (el.max(1))).wrapping_add(r.us(3)), _ => r.us(fit.min(40) + 2) }
    };
    match r.below(if depth == 0 { 15 } else { 9 }) {
        14 => if r.p(1, 2) { Op::RepZ(r.us(40)) } else { Op::RepVar(r.us(12)) },
        0 => Op::U8, 1 => Op::U16, 2 => Op::U32, 3 => Op::U64, 4 => Op::Arr(*r.pick(&ARR)), 5 | 6 => Op::Bytes(n(r, 1)),
        7 => if r.p(1, 4) { Op::Rest } else if r.p(1, 4) { Op::Trim } else { Op::Header },
        8 => { let k = r.us(6); let c = n(r, SZ[k]); if r.p(1, 2) { Op::Rep(k, c) } else { Op::Slice(k, c) } }
        9 => Op::If(r.p(1, 2), r.us(5)), 10 | 11 => Op::IfWith(r.p(2, 3), Box::new(op(r, left, depth + 1, hostile)), Box::new(op(r, left, depth + 1, hostile))),
        12 => Op::With(Box::new(op(r, left, depth + 1, hostile))), _ => { let k = r.us(6); Op::Rep(k, n(r, SZ[k])) }
    }
}
trait El<'p>: Parse<'p> + Copy { fn w(&self) -> Vec<u64>; }
impl El<'_> for u8 { fn w(&self) -> Vec<u64> { vec![*self as u64] } }
impl El<'_> for u16 { fn w(&self) -> Vec<u64> { vec![*self as u64] } }
impl El<'_> for u32 { fn w(&self) -> Vec<u64> { vec![*self as u64] } }
impl El<'_> for u64 { fn w(&self) -> Vec<u64> { vec![*self] } }
impl El<'_> for NamespaceEntry { fn w(&self) -> Vec<u64> { vec![self.dev, self.inode] } }
impl El<'_> for BranchEntry {
    fn w(&self) -> Vec<u64> {
        // the bits of the third word that the accessors show
        vec![self.from(), self.to(), self.mispred() as u64 | (self.predicted() as u64) << 1 | (self.in_tx() as u64) << 2 | (self.abort() as u64) << 3 | (self.cycles() as u64) << 4 | (branch_ty(self.ty()) as u64) << 20]
    }
}
/// A custom type that takes up no bytes, and one whose size depends on the data.
struct Nothing;
impl<'p> Parse<'p> for Nothing { fn parse<B: ParseBuf<'p>, E: Endian>(_: &mut Parser<B, E>) -> ParseResult<Self> { Ok(Nothing) } }
struct Var(Vec<u8>);
impl<'p> Parse<'p> for Var { fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> { let n = p.parse_u8()? % 4; Ok(Var(p.parse_bytes(n as usize)?.into_owned())) } }
fn els<'p, T: El<'p>>(v: &[T]) -> String { let mut s = String::new(); for x in v { s += &format!("{:x?}", x.w()); } s }
fn ref_els(d: &mut Dec, k: usize, n: usize) -> R<String> {
    if n > 0 && (d.base + d.pos) % [1, 2, 4, 8, 8, 8][k] != 0 { d.misaligned = true; }
    if n.checked_mul(SZ[k]).is_none() { d.hit_end = true; return Err(refdec::OVF); }
    let mut s = String::new();
    for _ in 0..n {
        let w = match k { 0 => vec![d.u8()?], 1 => vec![d.u16()?], 2 => vec![d.u32()?], 3 => vec![d.u64()?], 4 => vec![d.u64()?, d.u64()?], _ => vec![d.u64()?, d.u64()?, d.u64()? & 0xffffff] };
        s += &format!("{w:x?}");
    }
    Ok(s)
}
fn run_op<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, o: &Op) -> ParseResult<String> {
    fn x<T: Into<u64>>(v: T) -> String { format!("{:x}", v.into()) }
    macro_rules! arr { ($n:expr; $($k:literal)*) => { match $n { $( $k => hex(&p.parse::<[u8; $k]>()?), )* _ => unreachable!() } } }
    Ok(match o {
        Op::U8 => x(p.parse_u8()?), Op::U16 => x(p.parse_u16()?), Op::U32 => x(p.parse_u32()?), Op::U64 => x(p.parse_u64()?),
        Op::Arr(n) => arr!(*n; 0 1 3 5 8 16 20 33),
        Op::Bytes(n) => hex(&p.parse_bytes(*n)?),
        Op::Rest => hex(&p.parse_rest()?), Op::Trim => hex(&p.parse_rest_trim_nul()?),
        Op::If(b, k) => match k {
            0 => format!("{:x?}", p.parse_if::<u8>(*b)?), 1 => format!("{:x?}", p.parse_if::<u16>(*b)?), 2 => format!("{:x?}", p.parse_if::<u32>(*b)?),
            3 => format!("{:x?}", p.parse_if::<u64>(*b)?), _ => format!("{:x?}", p.parse_if::<[u8; 3]>(*b)?),
        },
        Op::IfWith(b, f, g) => match p.parse_if_with(*b, |p| { let a = dyn_op(p, f)?; Ok(a + "," + &dyn_op(p, g)?) })? { Some(s) => format!("some({s})"), None => "none".into() },
        Op::With(f) => p.parse_with(|p| dyn_op(p, f))?,
        Op::Rep(k, n) => match k { 0 => els(&p.parse_repeated::<u8>(*n)?), 1 => els(&p.parse_repeated::<u16>(*n)?), 2 => els(&p.parse_repeated::<u32>(*n)?), 3 => els(&p.parse_repeated::<u64>(*n)?),
            4 => els(&p.parse_repeated::<NamespaceEntry>(*n)?), _ => els(&p.parse_repeated::<BranchEntry>(*n)?) },
        Op::Slice(k, n) => unsafe { match k { 0 => els(&p.parse_slice::<u8>(*n)?), 1 => els(&p.parse_slice::<u16>(*n)?), 2 => els(&p.parse_slice::<u32>(*n)?), 3 => els(&p.parse_slice::<u64>(*n)?),
            4 => els(&p.parse_slice::<NamespaceEntry>(*n)?), _ => els(&p.parse_slice::<BranchEntry>(*n)?) } },
        Op::RepZ(n) => format!("{} {}", p.parse_repeated::<Nothing>(*n)?.len(), p.parse_repeated::<[u8; 0]>(*n)?.len()),
        Op::RepVar(n) => p.parse_repeated::<Var>(*n)?.iter().map(|v| hex(&v.0)).collect::<Vec<_>>().join(";"),
        Op::Header => { let h: perf_event_header = p.parse()?; format!("h {:x} {:x} {:x}", h.type_, h.misc, h.size) }
    })
}
fn dyn_op<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, o: &Op) -> ParseResult<String> { run_op(p, o) }
fn ref_op(d: &mut Dec, o: &Op) -> R<String> {
    fn x(v: u64) -> String { format!("{v:x}") }
    fn some(v: Option<u64>) -> String { format!("{v:x?}") }
    Ok(match o {
        Op::U8 => x(d.u8()?), Op::U16 => x(d.u16()?), Op::U32 => x(d.u32()?), Op::U64 => x(d.u64()?),
        Op::Arr(n) | Op::Bytes(n) => hex(d.bytes(*n)?), Op::Rest => hex(d.rest()), Op::Trim => hex(d.name()),
        Op::If(false, 4) => "None".into(),
        Op::If(true, 4) => format!("{:x?}", Some(d.bytes(3)?)),
        Op::If(b, k) => some(if *b { Some(match k { 0 => d.u8()?, 1 => d.u16()?, 2 => d.u32()?, _ => d.u64()? }) } else { None }),
        Op::IfWith(b, f, g) => if *b { let a = ref_op(d, f)?; format!("some({a},{})", ref_op(d, g)?) } else { "none".into() },
        Op::With(f) => ref_op(d, f)?,
        Op::Rep(k, n) => { let m = d.misaligned; let v = ref_els(d, *k, *n); d.misaligned = m; match v { Err(K(_)) => return Err(refdec::EOF), Ok(v) => v } }
        Op::Slice(k, n) => ref_els(d, *k, *n)?,
        Op::RepZ(n) => format!("{n} {n}"),
        Op::RepVar(n) => { let mut v = vec![]; for _ in 0..*n { let k = d.u8()? % 4; v.push(hex(d.bytes(k as usize)?)); } v.join(";") }
        Op::Header => format!("h {:x} {:x} {:x}", d.u32()?, d.u16()?, d.u16()?),
    })
}
struct OpsJob<'a> { ops: &'a [Op], config_same: bool }
impl Job for OpsJob<'_> {
    type Out = (Vec<Result<String, String>>, Option<ParseError>);
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
        let show = |p: &Parser<B, E>| { let c = p.config(); (c.sample_type().bits(), c.read_format().bits(), c.regs_user(), c.regs_intr(), SampleId::estimate_len(c)) };
        let c0 = show(p);
        let mut v = vec![];
        for o in self.ops {
            match run_op(p, o) {
                Ok(s) => v.push(Ok(s)),
                Err(e) => { v.push(Err(kind(&e).into())); self.config_same = show(p) == c0; return (v, Some(e)); }
            }
        }
        self.config_same = show(p) == c0;
        (v, None)
    }
}
fn some_data(r: &mut Rng) -> Vec<u8> { let n = if r.p(1, 12) { gen::len(r) } else if r.p(1, 300) { *r.pick(&[65535, 65536, 65537, 70000, 131073]) } else { r.us(64) }; let mut b = r.bytes(n); if r.p(1, 3) { for _ in 0..r.us(9) { b.push(0) } } b }

// ------------------------------------------------------------------ C01
fn c01(r: &mut Rng, st: &mut Stat) -> Res {
    if r.p(1, 4) {
        let data = some_data(r);
        let (end, off) = (*r.pick(&ENDS), offset(r));
        let src = SrcSpec::random(r, data.len());
        let nops = 1 + r.us(4);
        let ops: Vec<Op> = (0..nops).map(|_| op(r, data.len(), 0, true)).collect();
        let cfg = gen::cfg(r);
        set(&data, off, &src, &cfg, end, format!("{ops:?}"));
        let b = Buf::new(&data, off);
        let mut j = OpsJob { ops: &ops, config_same: true };
        if let Err(p) = guard(|| with_parser(b.get(), &src, &cfg, end, &mut j)) { bail!("{p}"); }
        st.hit((&data, nops));
        return Ok(());
    }
    let mut c = rec_case(r, &[], true);
    if r.p(1, 3) { for _ in 0..r.us(4) { gen::damage(r, &mut c.data); } }
    let src = SrcSpec::random(r, c.data.len());
    let off = offset(r);
    let api = r.us(8);
    set(&c.data, off, &src, &c.cfg, c.end, format!("api {api}"));
    let b = Buf::new(&c.data, off);
    let g = if api == 6 { guard(|| { with_parser(b.get(), &src, &c.cfg, c.end, &mut AttrJob); }) }
        else if api == 7 { let ty = c.ty; guard(|| { with_parser(b.get(), &src, &c.cfg, c.end, &mut TypedJob { ty }); }) }
        else { guard(|| { let _ = with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(api)); }) };
    if let Err(p) = g { bail!("{p}"); }
    st.hit((&c.data, api));
    Ok(())
}
// ------------------------------------------------------------------ C02
fn c02(r: &mut Rng, st: &mut Stat) -> Res {
    if r.p(1, 4) {
        let data = some_data(r);
        let (end, cfg) = (*r.pick(&ENDS), gen::cfg(r));
        let nops = 1 + r.us(4);
        let ops: Vec<Op> = (0..nops).map(|_| op(r, data.len(), 0, true)).collect();
        let src = SrcSpec::random(r, data.len());
        set(&data, 0, &src, &cfg, end, format!("{ops:?}"));
        let mut d = Dec::new(&data, 0, end.be());
        for o in &ops { if ref_op(&mut d, o).is_err() { break; } }
        if end.native() && d.misaligned { st.skipped += 1; return Ok(()); }
        let b = Buf::new(&data, 0);
        let mut j = OpsJob { ops: &ops, config_same: true };
        let (a, n) = with_parser(b.get(), &SrcSpec::Slice, &cfg, end, &mut j);
        let (x, m) = with_parser(b.get(), &src, &cfg, end, &mut j);
        same!(a.0, x.0, "result depends on the chunks");
        if a.1.is_none() { same!(n, m, "bytes consumed depend on the chunks"); }
        st.hit((&data, nops));
        return Ok(());
    }
    let c = rec_case(r, &[], true);
    let api = r.us(8);
    let src = SrcSpec::random(r, c.data.len());
    set(&c.data, 0, &src, &c.cfg, c.end, format!("api {api}"));
    let b = Buf::new(&c.data, 0);
    let run = |s: &SrcSpec| -> (Result<String, String>, usize) {
        if api == 6 { with_parser(b.get(), s, &c.cfg, c.end, &mut AttrJob) }
        else if api == 7 { with_parser(b.get(), s, &c.cfg, c.end, &mut TypedJob { ty: c.ty }) }
        else { let (x, n) = with_parser(b.get(), s, &c.cfg, c.end, &mut RecJob(api)); (x.map(|x| format!("{x:?}")), n) }
    };
    let mis = if api == 7 { let mut d = Dec::new(&c.data, 0, c.end.be()); let _ = refdec::body(&mut d, &c.cfg, c.ty, 0); d.misaligned } else { expect(&c.data, 0, c.end.be(), &c.cfg).misaligned };
    if c.end.native() && mis { st.skipped += 1; return Ok(()); }
    let (a, n) = run(&SrcSpec::Slice);
    let (x, m) = run(&src);
    same!(a, x, "result depends on the chunks");
    if a.is_ok() { same!(n, m, "bytes consumed depend on the chunks"); }
    st.hit((&c.data, api));
    Ok(())
}
// ------------------------------------------------------------------ C03
fn c03(r: &mut Rng, st: &mut Stat) -> Res {
    let mut c = rec_case(r, &[], true);
    let src = SrcSpec::random(r, c.data.len());
    set(&c.data, 0, &src, &c.cfg, c.end, "");
    let b = Buf::new(&c.data, 0);
    let e = expect(&c.data, 0, c.end.be(), &c.cfg);
    let (m, n) = with_parser(b.get(), &src, &c.cfg, c.end, &mut MetaJob(r.p(1, 2)));
    let size = match (&e.frame, &m) {
        (Ok(f), Ok(g)) => { same!(f.size, n, "bytes consumed by parse_metadata"); same!(hex(f.body), hex(&g.3), "body of the frame"); f.size }
        (Err(k), Err(g)) => { if !k.0.contains(&g.as_str()) { bail!("bad frame: expected {k:?}, got {g}"); } st.hit((&c.data, g)); return Ok(()); }
        (Err(k), Ok(_)) => bail!("a bad frame was accepted, expected {k:?}"),
        (Ok(_), Err(g)) => bail!("a good frame was rejected with {g}"),
    };
    let api = r.us(6);
    note(APIS[api]);
    let (a, n) = with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(api));
    if a.is_err() { st.hit((&c.data, api)); return Ok(()); }
    same!(size, n, "bytes consumed");
    // what follows the frame has no influence
    if kf1(c.end, &SrcSpec::Slice, e.misaligned) { st.skipped += 1; return Ok(()); }
    drop(e);
    let tail = c.data.len() - size;
    for i in size..c.data.len() { c.data[i] = !c.data[i]; }
    if r.p(1, 2) { let k = r.us(16); c.data.extend(r.bytes(k)); } else { c.data.truncate(size + r.us(tail + 1)); }
    let b = Buf::new(&c.data, 0);
    let (a2, n2) = with_parser(b.get(), &SrcSpec::Slice, &c.cfg, c.end, &mut RecJob(api));
    same!(a, a2, "the record depends on bytes after its frame");
    same!(n, n2, "the bytes consumed depend on bytes after the frame");
    st.hit((&c.data, api));
    Ok(())
}
// ------------------------------------------------------------------ C04
fn c04(r: &mut Rng, st: &mut Stat) -> Res {
    let w = r.word();
    let by = w.to_le_bytes();
    let rev: Vec<u8> = by.iter().rev().copied().collect();
    note(format!("word {w:#x}"));
    fn conv<E: Endian>(e: &E, b: &[u8]) -> (u16, u32, u64) {
        (e.convert_u16(b[..2].try_into().unwrap()), e.convert_u32(b[..4].try_into().unwrap()), e.convert_u64(b[..8].try_into().unwrap()))
    }
    let le = (w as u16, w as u32, w);
    let be = ((by[0] as u16) << 8 | by[1] as u16, rev[4..].iter().enumerate().map(|(i, b)| (*b as u32) << (8 * i)).sum::<u32>(), rev.iter().enumerate().map(|(i, b)| (*b as u64) << (8 * i)).sum::<u64>());
    same!(le, conv(&Little, &by), "Little"); same!(be, conv(&Big, &by), "Big");
    same!(le, conv(&Dynamic::Little, &by), "Dynamic::Little"); same!(be, conv(&Dynamic::Big, &by), "Dynamic::Big");
    let host_le = cfg!(target_endian = "little");
    same!(if host_le { le } else { be }, conv(&Native, &by), "Native");
    same!((host_le, !host_le, host_le, !host_le, true), (Little.is_native(), Big.is_native(), Dynamic::Little.is_native(), Dynamic::Big.is_native(), Native.is_native()), "is_native of Little, Big, Dynamic::Little, Dynamic::Big, Native");
    // the same record in either byte order
    let cfg = gen::cfg(r);
    let (ty, misc) = (gen::ty(r), gen::misc(r));
    let mut r2 = r.clone();
    let (mut l, mut b) = (vec![], vec![]);
    gen::record(r, &mut l, &cfg, false, ty, misc, false);
    gen::record(&mut r2, &mut b, &cfg, true, ty, misc, false);
    let api = r.us(6);
    let src = SrcSpec::random(r, l.len());
    let e = *r.pick(&[(End::Little, End::Big), (End::DynL, End::DynB), (End::Little, End::DynB), (End::DynL, End::Big), (End::Native, End::Big)]);
    let e = if e.0 == End::Native && e.0.be() { (End::Little, End::Native) } else { e };
    set(&l, 0, &src, &cfg, e.0, format!("{} compared with {:?} data {}", APIS[api], e.1, hex(&b)));
    if l.len() > 65000 || expect(&l, 0, false, &cfg).misaligned { st.skipped += 1; return Ok(()); }
    let (bl, bb) = (Buf::new(&l, 0), Buf::new(&b, 0));
    let (x, _) = with_parser(bl.get(), &src, &cfg, e.0, &mut RecJob(api));
    let (y, _) = with_parser(bb.get(), &src, &cfg, e.1, &mut RecJob(api));
    same!(x, y, "the byte orders disagree");
    st.hit((&l, api));
    // scalars
    let ops = [Op::U8, Op::U16, Op::U32, Op::U64, Op::Header, Op::If(true, r.us(4)), Op::Rep(1 + r.us(3), 2)];
    let o = [r.pick(&ops).clone()];
    let end = *r.pick(&ENDS);
    let data = r.bytes(24);
    let src = SrcSpec::random(r, 24);
    set(&data, 0, &src, &cfg, end, format!("{o:?}"));
    let bd = Buf::new(&data, 0);
    let (g, _) = with_parser(bd.get(), &src, &cfg, end, &mut OpsJob { ops: &o, config_same: true });
    let mut d = Dec::new(&data, 0, end.be());
    same!(ref_op(&mut d, &o[0]).map_err(|_| String::new()), g.0[0], "scalar");
    Ok(())
}
// ------------------------------------------------------------------ C05, C07..C10: records against the reference
/// Compares the decoded record. `kinds`: error kinds matter too.
fn decode(r: &mut Rng, st: &mut Stat, c: &Case, pick: fn(&str) -> bool, kinds: &[&str]) -> Res {
    let src = SrcSpec::random(r, c.data.len());
    let off = if r.p(1, 10) { r.us(8) } else { 0 };
    let b = Buf::new(&c.data, off);
    if r.p(1, 4) {
        // the body alone, as custom records do
        set(&c.data, off, &src, &c.cfg, c.end, format!("parser.parse() of type {} on the body", c.ty));
        let data = b.get();
        if data.len() < 8 { return Ok(()); }
        let body = &data[8..];
        let mut d = Dec::new(body, off, c.end.be());
        let e = refdec::body(&mut d, &c.cfg, c.ty, 0);
        let used = d.pos;
        if kf1(c.end, &SrcSpec::Slice, d.misaligned) { st.skipped += 1; return Ok(()); }
        let (g, n) = with_parser(body, &SrcSpec::Slice, &c.cfg, c.end, &mut TypedJob { ty: c.ty });
        compare(&e, &g, kinds)?;
        if g.is_ok() && (1..22).contains(&c.ty) { same!(used, n, "bytes used by the record"); }
        st.hit((&c.data, 9));
        return Ok(());
    }
    let api = r.us(6);
    set(&c.data, off, &src, &c.cfg, c.end, APIS[api]);
    let e = expect(b.get(), off, c.end.be(), &c.cfg);
    let f = match e.frame { Ok(f) => f, Err(_) => { st.skipped += 1; return Ok(()) } };
    if f.ty >= 22 || !pick(refdec::type_name(f.ty)) { st.skipped += 1; return Ok(()); }
    if kf1(c.end, &src, e.misaligned) { st.skipped += 1; return Ok(()); }
    let (g, _) = with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(api));
    compare(&e.rec, &g.map(|g| g.rec), kinds)?;
    st.hit((&c.data, api));
    Ok(())
}
fn compare(e: &R<String>, g: &Got, kinds: &[&str]) -> Res {
    match (e, g) {
        (Ok(a), Ok(b)) => { same!(a, b, "decoded value"); }
        (Ok(a), Err(k)) => bail!("valid data rejected with {k}, expected {a}"),
        (Err(k), Ok(b)) => bail!("expected {k:?}, got the value {b}"),
        (Err(k), Err(g)) => if k.0.iter().any(|k| kinds.contains(k)) && !k.0.contains(&g.as_str()) { bail!("expected error {k:?}, got {g}") },
    }
    Ok(())
}
/// a sample on its own may be larger than any record
fn c05_sample(r: &mut Rng, st: &mut Stat) -> Res {
    let cfg = gen::cfg(r);
    let end = *r.pick(&ENDS);
    let mut w = gen::W::new(end.be());
    let bad = r.p(1, 4);
    gen::sample(r, &mut w, &cfg, bad);
    let mut data = w.v;
    if bad { gen::damage(r, &mut data) } else if r.p(1, 3) { let n = r.us(12); data.extend(r.bytes(n)) }
    let src = SrcSpec::random(r, data.len());
    set(&data, 0, &src, &cfg, end, "Sample");
    let mut d = Dec::new(&data, 0, end.be());
    let e = refdec::sample(&mut d, &cfg).map(|f| refdec::sample_str(&f));
    if kf1(end, &src, d.misaligned) { st.skipped += 1; return Ok(()); }
    struct J;
    impl Job for J { type Out = Got; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Got { got(p.parse::<Sample>()) } }
    let b = Buf::new(&data, 0);
    let (g, n) = with_parser(b.get(), &src, &cfg, end, &mut J);
    compare(&e, &g, &[])?;
    if g.is_ok() { same!(d.pos, n, "bytes used"); }
    st.hit((&data, cfg.st));
    Ok(())
}
fn c05(r: &mut Rng, st: &mut Stat) -> Res { if r.p(1, 4) { return c05_sample(r, st); } let bad = r.p(1, 3); let c = rec_case(r, &[9], bad); decode(r, st, &c, |n| n == "sample", &[]) }
fn c07(r: &mut Rng, st: &mut Stat) -> Res {
    let bad = r.p(1, 8);
    let c = rec_case(r, &[2, 4, 5, 6, 7, 11, 12, 13, 15, 18, 21], bad);
    decode(r, st, &c, |n| ["lost", "exit", "throttle", "unthrottle", "fork", "aux", "itrace_start", "lost_samples", "switch_cpu_wide", "bpf_event", "aux_output_hw_id"].contains(&n), &[])
}
fn c08(r: &mut Rng, st: &mut Stat) -> Res {
    let bad = r.p(1, 5);
    let c = rec_case(r, &[1, 3, 16, 17, 19, 20], bad);
    decode(r, st, &c, |n| ["mmap", "comm", "namespaces", "ksymbol", "cgroup", "text_poke"].contains(&n), &[])
}
fn c09(r: &mut Rng, st: &mut Stat) -> Res { let bad = r.p(1, 3); let c = rec_case(r, &[10], bad); decode(r, st, &c, |n| n == "mmap2", &["InvalidRecord"]) }
struct CountJob(u8);
impl Job for CountJob {
    type Out = Got;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Got {
        match self.0 { 0 => got(p.parse::<ReadValue>()), 1 => got(p.parse::<ReadGroup>()), _ => match p.parse::<Sample>() { Ok(s) => Ok(s.values().map(|v| v.dump()).unwrap_or("none".into())), Err(e) => Err(kind(&e).into()) } }
    }
}
fn c10(r: &mut Rng, st: &mut Stat) -> Res {
    if r.p(1, 4) { let bad = r.p(1, 4); let c = rec_case(r, &[8], bad); return decode(r, st, &c, |n| n == "read", &["UnsupportedConfig", "InvalidRecord"]); }
    let mut cfg = gen::cfg(r);
    let end = *r.pick(&ENDS);
    let which = r.below(3) as u8;
    let mut w = gen::W::new(end.be());
    let bad = r.p(1, 4);
    if which == 2 { cfg.st = 1 << 4 | if r.p(1, 3) { 1 << r.below(4) } else { 0 }; gen::sample(r, &mut w, &cfg, bad) }
    else if cfg.rf & 8 != 0 { gen::read_group(r, &mut w, &cfg, bad) } else { gen::words(r, &mut w, 1 + (cfg.rf & 23).count_ones() as usize) }
    let mut data = w.v;
    if bad { gen::damage(r, &mut data) } else if r.p(1, 3) { let n = r.us(12); data.extend(r.bytes(n)) }
    let src = SrcSpec::random(r, data.len());
    set(&data, 0, &src, &cfg, end, ["ReadValue", "ReadGroup", "Sample.values"][which as usize]);
    let mut d = Dec::new(&data, 0, end.be());
    let e = match which {
        0 => refdec::read_value(&mut d, &cfg).map(|v| v.0),
        1 => refdec::read_group(&mut d, &cfg),
        _ => refdec::sample(&mut d, &cfg).map(|f| f[9].clone().unwrap_or("none".into())),
    };
    if kf1(end, &src, d.misaligned) { st.skipped += 1; return Ok(()); }
    let b = Buf::new(&data, 0);
    let (g, n) = with_parser(b.get(), &src, &cfg, end, &mut CountJob(which));
    compare(&e, &g, &["UnsupportedConfig", "InvalidRecord"])?;
    if g.is_ok() { same!(d.pos, n, "bytes used"); }
    st.hit((&data, which, cfg.rf));
    Ok(())
}
// ------------------------------------------------------------------ C06
fn c06(r: &mut Rng, st: &mut Stat) -> Res {
    let bad = r.p(1, 3);
    let mut c = rec_case(r, &[], bad);
    if r.p(1, 6) {
        // frames around the size of the trailer
        let n = (refdec::sid_len(&c.cfg) + 8).saturating_sub(r.us(20)) + r.us(8);
        let mut w = gen::W::new(c.end.be());
        w.u32(c.ty as u64);
        w.u16(c.misc as u64);
        w.u16(8 + n as u64);
        c.data = w.v;
        c.data.extend(r.bytes(n));
    }
    let src = SrcSpec::random(r, c.data.len());
    set(&c.data, 0, &src, &c.cfg, c.end, "sample_id");
    let b = Buf::new(&c.data, 0);
    let e = expect(&c.data, 0, c.end.be(), &c.cfg);
    let with_header = r.p(1, 2);
    let (m, _) = with_parser(b.get(), &src, &c.cfg, c.end, &mut MetaJob(with_header));
    match (&e.frame, &m) {
        (Ok(f), Ok(g)) => { same!(f.sid, g.2, "sample_id"); same!(hex(f.body), hex(&g.3), "record body"); }
        (Err(k), Err(g)) => if *k == refdec::INV && g != "InvalidRecord" { bail!("expected InvalidRecord, got {g}") },
        (Err(k), Ok(g)) => bail!("expected {k:?}, got {g:?}"),
        (Ok(_), Err(g)) => bail!("valid frame rejected with {g}"),
    }
    let api = *r.pick(&[0usize, 2, 4, 5]);
    note(APIS[api]);
    if let (Ok(f), (Ok(g), _)) = (&e.frame, with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(api))) { same!(f.sid, g.meta.unwrap().2, "sample_id"); }
    // SampleId on its own, with its size
    struct S;
    impl Job for S { type Out = (Got, usize); fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { let n = SampleId::estimate_len(p.config()); (got(p.parse::<SampleId>()), n) } }
    let data = r.bytes(50);
    set(&data, 0, &src, &c.cfg, c.end, "SampleId::parse");
    let b = Buf::new(&data, 0);
    let ((g, est), n) = with_parser(b.get(), &SrcSpec::Slice, &c.cfg, c.end, &mut S);
    let mut d = Dec::new(&data, 0, c.end.be());
    same!(refdec::sid(&mut d, &c.cfg).map_err(|_| String::new()), g, "SampleId::parse");
    same!((refdec::sid_len(&c.cfg), refdec::sid_len(&c.cfg)), (est, n), "size of the sample_id (estimate_len, bytes consumed)");
    st.hit((&c.data, c.cfg.st, c.cfg.all));
    Ok(())
}
// ------------------------------------------------------------------ C11
struct GroupJob<'a, F: FnMut(&ReadGroup) -> Res>(&'a mut F);
impl<F: FnMut(&ReadGroup) -> Res> Job for GroupJob<'_, F> {
    type Out = Result<Res, String>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { match p.parse::<ReadGroup>() { Ok(g) => Ok((self.0)(&g)), Err(e) => Err(kind(&e).into()) } }
}
struct ValueJob<'a, F: FnMut(&ReadValue) -> Res>(&'a mut F);
impl<F: FnMut(&ReadValue) -> Res> Job for ValueJob<'_, F> {
    type Out = Result<Res, String>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { match p.parse::<ReadValue>() { Ok(g) => Ok((self.0)(&g)), Err(e) => Err(kind(&e).into()) } }
}
fn c11(r: &mut Rng, st: &mut Stat) -> Res {
    let rf = r.below(32);
    let cfg = Cfg { rf, ..Cfg::default() };
    let end = *r.pick(&ENDS);
    let mut w = gen::W::new(end.be());
    let src;
    if rf & 8 == 0 {
        gen::words(r, &mut w, 1 + (rf & 23).count_ones() as usize);
        src = SrcSpec::random(r, w.v.len());
        set(&w.v, 0, &src, &cfg, end, "ReadValue conversions");
        let b = Buf::new(&w.v, 0);
        let mut f = |v: &ReadValue| -> Res {
            let g = ReadGroup::from(v.clone());
            same!((1, false), (g.len(), g.is_empty()), "length of the converted group");
            let e = match g.get(0) { Some(e) => e, None => bail!("no entry") };
            same!((v.value(), v.id(), v.lost()), (e.value(), e.id(), e.lost()), "entry of the converted group");
            same!((v.time_enabled(), v.time_running()), (g.time_enabled(), g.time_running()), "times of the converted group");
            same!(v.dump(), ReadValue::from_group_and_entry(&g, &e).dump(), "from_group_and_entry");
            match ReadValue::try_from(g) { Ok(u) => same!(v.dump(), u.dump(), "converting back"), Err(_) => bail!("converting back failed") }
            Ok(())
        };
        let x = with_parser(b.get(), &src, &cfg, end, &mut ValueJob(&mut f)).0;
        st.hit((&w.v, rf));
        return match x { Ok(x) => x, Err(_) => Ok(()) };
    }
    // group
    let el = 1 + (rf >> 2 & 1) as usize + (rf >> 4 & 1) as usize;
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 if r.p(1, 20) => 40 + r.us(600), 3 => r.us(40), _ => r.us(8) };
    let ids = if r.p(1, 2) { 6 } else { 2 * n as u64 + 2 };
    w.u64(n as u64);
    let mut t = vec![];
    for _ in 0..(rf & 3).count_ones() { let x = r.word(); w.u64(x); t.push(x); }
    let mut model = vec![];
    for _ in 0..n {
        let v = r.word();
        let id = (rf & 4 != 0).then(|| if r.p(1, 16) { r.word() } else { r.below(ids) });
        let lost = (rf & 16 != 0).then(|| r.word());
        w.u64(v);
        if let Some(x) = id { w.u64(x) }
        if let Some(x) = lost { w.u64(x) }
        model.push((v, id, lost));
    }
    let _ = el;
    src = SrcSpec::random(r, w.v.len());
    set(&w.v, 0, &src, &cfg, end, "ReadGroup");
    let b = Buf::new(&w.v, 0);
    let rr = r.clone();
    let mut f = |g: &ReadGroup| -> Res {
        let mut r = rr.clone();
        let own = g.clone().into_owned();
        let g = if r.p(1, 3) { &own } else { g };
        let tup = |e: GroupEntry| (e.value(), e.id(), e.lost());
        same!((n, n == 0), (g.len(), g.is_empty()), "len, is_empty");
        for _ in 0..3 {
            let i = match r.below(5) { 0 => n, 1 => r.word() as usize, _ => r.us(n + 2) };
            same!(model.get(i).copied(), g.get(i).map(tup), "get({i})");
            let id = match model.get(r.us(n + 1)) { Some((_, Some(id), _)) if r.p(1, 2) => *id, _ => r.below(ids + 1) };
            let want = if rf & 4 != 0 { model.iter().find(|m| m.1 == Some(id)).copied() } else { None };
            same!(want, g.get_by_id(id).map(tup), "get_by_id({id})");
        }
        let all: Vec<_> = g.entries().map(tup).collect();
        same!(model, all, "entries()");
        let back: Vec<_> = g.entries().rev().map(tup).collect();
        same!(model.iter().rev().copied().collect::<Vec<_>>(), back, "entries().rev()");
        // mixed use of one iterator
        let mut it = g.entries();
        let (mut lo, mut hi) = (0usize, n);
        let mut log = String::new();
        for _ in 0..r.us(12) {
            let k = match r.below(8) { 0 => hi - lo, 1 => r.word() as usize, _ => r.us(4) };
            let o = r.below(8);
            log += &format!("{o}/{k} ");
            note(format!("iterator operations {log}"));
            let left = hi - lo;
            match o {
                0 => { let w = (lo < hi).then(|| { lo += 1; model[lo - 1] }); same!(w, it.next().map(tup), "next") }
                1 => { let w = (lo < hi).then(|| { hi -= 1; model[hi] }); same!(w, it.next_back().map(tup), "next_back") }
                2 => { let w = if k < left { lo += k + 1; Some(model[lo - 1]) } else { lo = hi; None }; same!(w, it.nth(k).map(tup), "nth({k})") }
                3 => { let w = if k < left { hi -= k + 1; Some(model[hi]) } else { hi = lo; None }; same!(w, it.nth_back(k).map(tup), "nth_back({k})") }
                4 => { same!((left, (left, Some(left))), (it.len(), it.size_hint()), "len, size_hint") }
                5 => { same!(left, it.clone().count(), "count") }
                6 => { same!(model[lo..hi].last().copied(), it.clone().last().map(tup), "last") }
                _ => { same!(model[lo..hi].to_vec(), it.clone().map(tup).collect::<Vec<_>>(), "rest of the iterator") }
            }
        }
        for (i, e) in g.entries().enumerate() {
            let v = ReadValue::from_group_and_entry(g, &e);
            same!((model[i].0, model[i].1, model[i].2, g.time_enabled(), g.time_running()), (v.value(), v.id(), v.lost(), v.time_enabled(), v.time_running()), "from_group_and_entry {i}");
        }
        match ReadValue::try_from(g.clone()) {
            Ok(v) => { if n != 1 { bail!("a group of {n} entries was converted to a single read") } same!((model[0].0, model[0].1, model[0].2, g.time_enabled(), g.time_running()), (v.value(), v.id(), v.lost(), v.time_enabled(), v.time_running()), "converted single read") }
            Err(_) => if n == 1 { bail!("a one-entry group was not converted") },
        }
        Ok(())
    };
    let x = with_parser(b.get(), &src, &cfg, end, &mut GroupJob(&mut f)).0;
    st.hit((&w.v, rf));
    match x { Ok(x) => x, Err(_) => Ok(()) }
}
// ------------------------------------------------------------------ C12
struct VisitJob(u8);
impl Job for VisitJob {
    type Out = Result<Seen, String>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
        match self.0 { 0 => p.parse_record(All), 1 => p.parse_record(Bare), _ => p.parse_record(MmapOnly) }.map_err(|e| kind(&e).into())
    }
}
fn c12(r: &mut Rng, st: &mut Stat) -> Res {
    let bad = r.p(1, 8);
    let c = rec_case(r, &[], bad);
    let src = SrcSpec::random(r, c.data.len());
    set(&c.data, 0, &src, &c.cfg, c.end, "dispatch");
    let b = Buf::new(&c.data, 0);
    let e = expect(&c.data, 0, c.end.be(), &c.cfg);
    let f = match e.frame { Ok(f) => f, Err(_) => { st.skipped += 1; return Ok(()) } };
    if kf1(c.end, &src, e.misaligned) { st.skipped += 1; return Ok(()); }
    let run = |k: u8| with_parser(b.get(), &src, &c.cfg, c.end, &mut VisitJob(k)).0;
    // the record and its metadata as the metadata interface gives them
    let m = match with_parser(b.get(), &src, &c.cfg, c.end, &mut MetaJob(false)).0 { Ok(m) => m, Err(_) => { st.skipped += 1; return Ok(()) } };
    let t = with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(4)).0;
    let t = match t { Ok(t) => t, Err(k) => {
        if let Ok(s) = run(0) { bail!("visitor called ({}) although the record does not parse ({k})", s.method); }
        return Ok(());
    } };
    let name = refdec::type_name(f.ty);
    let s = match run(0) { Ok(s) => s, Err(k) => bail!("{name} record was not visited: {k}") };
    let rec = if name == "unknown" { format!("Unknown {}", hex(f.body)) } else { t.rec.clone() };
    same!((name, f.ty, f.misc, &m.2, &rec), (s.method, s.ty, s.misc, &s.sid, &s.rec), "visit (method, type, misc, sample_id, record)");
    let s = match run(1) { Ok(s) => s, Err(k) => bail!("not visited: {k}") };
    same!(("unimplemented", f.ty, f.misc, &m.2), (s.method, s.ty, s.misc, &s.sid), "default visitor method");
    let s = match run(2) { Ok(s) => s, Err(k) => bail!("not visited: {k}") };
    let want = if f.ty == 1 || f.ty == 10 { "mmap" } else { "unimplemented" };
    same!((want, f.ty, f.misc, &m.2), (s.method, s.ty, s.misc, &s.sid), "visitor that only overrides visit_mmap");
    if f.ty == 1 { same!(rec, s.rec, "mmap record") }
    if f.ty == 10 {
        let w: Vec<&str> = rec.split(' ').collect();
        same!(format!("Mmap {} {}", w[1..6].join(" "), w.last().unwrap()), s.rec, "converted mmap2 record");
    }
    for api in [1, 3] {
        let g = match with_parser(b.get(), &src, &c.cfg, c.end, &mut RecJob(api)).0 { Ok(g) => g, Err(k) => bail!("Record not parsed: {k}") };
        same!((Some(name), &rec), (g.method, &g.rec), "Record variant ({})", APIS[api]);
        if name == "unknown" { same!(Some(f.ty), g.ty, "type of Record::Unknown") }
    }
    st.hit((&c.data, f.ty));
    Ok(())
}
// ------------------------------------------------------------------ C13
fn c13(r: &mut Rng, st: &mut Stat) -> Res {
    let mut a = perf_event_attr::default();
    {
        let p = &mut a as *mut _ as *mut u64;
        for i in 0..std::mem::size_of::<perf_event_attr>() / 8 { unsafe { p.add(i).write(if r.p(1, 3) { 0 } else { r.word() }) } }
    }
    a.sample_type = r.word() & ((1 << 40) - 1);
    a.read_format = match r.below(4) { 0 => r.below(32), 1 => 1 << r.below(64), _ => r.word() };
    let all = r.p(1, 2);
    a.set_sample_id_all(all as _);
    let hw = a.branch_sample_type >> 17 & 1 != 0;
    let cfg = Cfg { st: a.sample_type, rf: a.read_format, all, hw, ru: a.sample_regs_user, ri: a.sample_regs_intr };
    let rf = a.read_format & 31 | if a.read_format >> 5 != 0 { 32 } else { 0 };
    let want = (cfg.st, rf & 31, rf & 32 != 0, cfg.ru, cfg.ri, refdec::sid_len(&cfg));
    fn see<E>(c: &ParseConfig<E>) -> (u64, u64, bool, u64, u64, usize) where E: Endian {
        let rf = c.read_format().bits();
        (c.sample_type().bits(), rf & 31, rf >> 5 != 0, c.regs_user(), c.regs_intr(), SampleId::estimate_len(c))
    }
    set(&[], 0, &SrcSpec::Slice, &cfg, End::Little, format!("attr bits {:x?} branch_sample_type {:x}", unsafe { std::mem::transmute_copy::<_, u64>(&a._bitfield_1) }, a.branch_sample_type));
    same!(want, see(&ParseConfig::<Little>::from(a)), "config from attr (sample_type, read_format, unsupported bits, regs_user, regs_intr, sample_id length)");
    same!(want, see(&ParseConfig::<Native>::from(a).with_endian(Big).with_endian(Dynamic::Big)), "config after with_endian");
    same!(want, see(&ParseConfig::<Big>::from(a).clone()), "cloned config");
    let eb = ParseConfig::<Big>::from(a).with_endian(Dynamic::Big);
    let el = ParseConfig::<Big>::from(a).with_endian(Dynamic::Little);
    same!((&Dynamic::Big, &Dynamic::Little), (eb.endian(), el.endian()), "endian of the config");
    // inside a record, whatever its misc
    struct Inner(u16);
    impl Job for Inner {
        type Out = ((u64, u64, bool, u64, u64, usize), (u64, u64, bool, u64, u64, usize));
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
            let h = perf_event_header { type_: 9, misc: self.0, size: 8 };
            let q = p.parse_metadata_with_header(h).unwrap().0;
            let x = see(q.config());
            drop(q);
            (x, see(p.config()))
        }
    }
    let misc = gen::misc(r);
    note(format!("misc {misc:x}"));
    // the config of one record's parser used for another record: that one's misc decides
    struct Again(u16, Vec<u8>);
    impl Job for Again {
        type Out = (String, String);
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
            let q = p.parse_metadata_with_header(perf_event_header { type_: 9, misc: self.0, size: 8 }).unwrap().0;
            let see = |c: ParseConfig<E>| match Parser::new(&self.1[..], c).parse::<Record>() { Ok(r) => of_record(r).rec, Err(e) => kind(&e).into() };
            let x = see(q.config().clone());
            drop(q);
            (see(p.config().clone()), x)
        }
    }
    {
        let end = *r.pick(&ENDS);
        let mut w = gen::W::new(end.be());
        w.u32(*r.pick(&[10, 15]));
        w.u16(gen::misc(r) as u64);
        w.u16(208);
        let mut body = r.bytes(200);
        body[32] = r.below(22) as u8;
        w.v.extend(body);
        let (plain, again) = with_attr(&[], &SrcSpec::Slice, a, end, &mut Again(misc, w.v)).0;
        same!(plain, again, "record parsed with the config of another record's parser");
    }
    let end = *r.pick(&ENDS);
    let (x, _) = with_attr(&[], &SrcSpec::Slice, a, end, &mut Inner(misc));
    same!((want, want), x, "config inside a record with misc {misc:#x}, and after it");
    // branch_hw_index and sample_id_all, by their effect, through the record interface
    let mut b = a;
    b.sample_type = 1 << 11;
    let ext = r.word();
    let mut w = gen::W::new(end.be());
    w.u64(0);
    w.u64(ext);
    struct H;
    impl Job for H { type Out = Result<Option<u64>, String>; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { p.parse::<Sample>().map(|s| s.lbr_hw_index()).map_err(|e| kind(&e).into()) } }
    let d = Buf::new(&w.v, 0);
    let (g, n) = with_attr(d.get(), &SrcSpec::Slice, b, end, &mut H);
    same!((Ok(hw.then_some(ext)), 8 + 8 * hw as usize), (g, n), "lbr_hw_index of a sample (value, bytes consumed)");
    b.sample_type = a.sample_type | 4;
    let (g, n) = with_attr(&[0u8; 64], &SrcSpec::Slice, b, end, &mut Meta1);
    let want = if all { 8 * ((a.sample_type | 4) & 0x102c6).count_ones() as usize } else { 0 };
    same!((Ok(all), want), (g, n), "sample_id present (present, bytes consumed)");
    // unknown read_format bits are refused, not dropped
    struct RV;
    impl Job for RV { type Out = [Option<String>; 2]; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { [got(p.parse::<ReadValue>()).err(), got(p.parse::<ReadGroup>()).err()] } }
    if a.read_format >> 5 != 0 { same!([Some("UnsupportedConfig".to_string()), Some("UnsupportedConfig".to_string())], with_attr(&[0u8; 64], &SrcSpec::Slice, a, end, &mut RV).0, "reads with unknown read_format bits") }
    st.hit((cfg.st, cfg.rf, cfg.ru, misc));
    Ok(())
}
struct Meta1;
impl Job for Meta1 { type Out = Result<bool, String>; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out { p.parse::<SampleId>().map(|s| s.time().is_some()).map_err(|e| kind(&e).into()) } }
// ------------------------------------------------------------------ C14
pub struct AttrJob;
impl Job for AttrJob { type Out = Got; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Got { got(p.parse::<perf_event_attr>()) } }
fn attr_case(r: &mut Rng, be: bool) -> Vec<u8> {
    let big = r.p(1, 60);
    let size = match r.below(6) { _ if big => *r.pick(&[1000, 4095, 4096, 4104, 5000, 65535, 65536, 65544, 70000]), 0 => r.below(200), 1 => 136 + r.below(40), 2 => r.word() as u32 as u64, _ => *r.pick(&refdec::ATTR_SIZES) as u64 };
    let mut w = gen::W::new(be);
    w.r(r, &[4]);
    w.u32(size);
    let n = (size as usize).clamp(8, if big { 80000 } else { 400 }) - 8;
    let zeros = r.p(2, 3);
    for i in 0..n { let x = if i >= 128 && zeros { 0 } else { r.u64() as u8 }; w.v.push(x) }
    if n > 128 && !zeros && r.p(1, 2) { for i in 136..w.v.len() { w.v[i] = 0 } let k = w.v.len() - 1 - r.us(n - 128); w.v[k] = 1 << r.below(8); }
    match r.below(6) { 0 => { let k = r.us(w.v.len() + 1); w.v.truncate(k) } 1 | 2 => { let k = r.us(20); let b = r.bytes(k); w.v.extend(b) } _ => {} }
    w.v
}
fn c14(r: &mut Rng, st: &mut Stat) -> Res {
    let end = *r.pick(&ENDS);
    let data = attr_case(r, end.be());
    let src = SrcSpec::random(r, data.len());
    let cfg = gen::cfg(r);
    set(&data, 0, &src, &cfg, end, "perf_event_attr");
    let b = Buf::new(&data, 0);
    let mut d = Dec::new(&data, 0, end.be());
    let e = refdec::attr(&mut d);
    let (g, n) = with_parser(b.get(), &src, &cfg, end, &mut AttrJob);
    compare(&e, &g, &["InvalidRecord", "UnsupportedData", "Eof"])?;
    if g.is_ok() { same!(d.pos, n, "bytes consumed"); }
    st.hit(&data);
    Ok(())
}
// ------------------------------------------------------------------ C15
fn c15(r: &mut Rng, st: &mut Stat) -> Res {
    let end = *r.pick(&ENDS);
    let cfg = gen::cfg(r);
    if r.p(1, 2) {
        // one primitive with a count chosen freely
        let n = match r.below(4) { 0 => r.us(20), 1 => 2000 + r.us(4000), _ => r.us(300) };
        let data = r.bytes(n);
        let k = r.us(6);
        let cnt = match r.below(6) { 0 => r.word() as usize, 1 => usize::MAX / SZ[k], 2 => (n / SZ[k]) + 1 + r.us(9), 3 => 1 << (10 + r.below(30)), 4 => n * (1 + r.us(64)), _ => (1 << 20) + r.us(1 << 20) };
        let o = [match r.below(4) { 0 => Op::Bytes(cnt), 1 => Op::Slice(k, cnt), _ => Op::Rep(k, cnt) }];
        let skip = r.us(n + 1) / 2;
        let src = SrcSpec::random(r, n);
        let hinted = match &src { SrcSpec::Slice => true, SrcSpec::Chunks { hint, .. } => *hint, _ => false };
        set(&data, 0, &src, &cfg, end, format!("skip {skip}, then {o:?}"));
        struct J<'a>(&'a [Op], usize);
        impl Job for J<'_> {
            type Out = usize;
            fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> usize {
                drop(p.parse_bytes(self.1));
                let o = &self.0[0];
                // no formatting while the allocator is watched
                max_alloc(|| match o {
                    Op::Bytes(n) => { let _ = p.parse_bytes(*n); }
                    Op::Slice(k, n) => unsafe { match k { 0 => drop(p.parse_slice::<u8>(*n)), 1 => drop(p.parse_slice::<u16>(*n)), 2 => drop(p.parse_slice::<u32>(*n)), 3 => drop(p.parse_slice::<u64>(*n)), 4 => drop(p.parse_slice::<NamespaceEntry>(*n)), _ => drop(p.parse_slice::<BranchEntry>(*n)) } },
                    Op::Rep(k, n) => match k { 0 => drop(p.parse_repeated::<u8>(*n)), 1 => drop(p.parse_repeated::<u16>(*n)), 2 => drop(p.parse_repeated::<u32>(*n)), 3 => drop(p.parse_repeated::<u64>(*n)), 4 => drop(p.parse_repeated::<NamespaceEntry>(*n)), _ => drop(p.parse_repeated::<BranchEntry>(*n)) },
                    _ => {}
                }).1
            }
        }
        let b = Buf::new(&data, 0);
        let (m, _) = with_parser(b.get(), &src, &cfg, end, &mut J(&o, skip));
        let left = n - skip;
        // 128: the source's own chunk buffers and error values
        let lim = if hinted { left.max(128) } else { 16384.max(2 * left + 64) };
        if m > lim { bail!("an allocation of {m} bytes was requested with {left} bytes available (hint: {hinted}), limit {lim}"); }
        st.hit((cnt, n, k));
        return Ok(());
    }
    let mut c = rec_case(r, &[], true);
    if r.p(1, 2) { c.data.truncate(40 + r.us(200)); }
    let src = if r.p(1, 2) { SrcSpec::Slice } else { SrcSpec::random(r, c.data.len()) };
    let ty = c.ty;
    let api = *r.pick(&[0usize, 1, 7, 8]);
    set(&c.data, 0, &src, &c.cfg, c.end, format!("api {api}"));
    struct R2(usize, u32);
    struct Drop1;
    impl<'a> Visitor<'a> for Drop1 { type Output = (); fn visit_unimplemented(self, _: RecordMetadata) {} }
    impl Job for R2 {
        type Out = usize;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> usize {
            max_alloc(|| match self.0 {
                0 => drop(p.parse_record(Drop1)),
                1 => drop(p.parse::<Record>()),
                7 => match self.1 { 9 => drop(p.parse::<Sample>()), 16 => drop(p.parse::<Namespaces>()), 20 => drop(p.parse::<TextPoke>()), 8 => drop(p.parse::<Read>()), 1 => drop(p.parse::<Mmap>()), 10 => drop(p.parse::<Mmap2>()), _ => drop(p.parse::<ReadGroup>()) },
                _ => drop(p.parse::<perf_event_attr>()),
            }).1
        }
    }
    let b = Buf::new(&c.data, 0);
    let (m, _) = with_parser(b.get(), &src, &c.cfg, c.end, &mut R2(api, ty));
    let n = c.data.len();
    // a Record's boxed sample is below 1 KiB; a list of one-byte chunks takes 24 bytes for each (doubling)
    let lim = match &src { SrcSpec::Slice => n.max(1024), SrcSpec::Chunks { hint: true, .. } => (64 * n).max(1024), _ => 16384.max(64 * n).max(1024) };
    if m > lim { bail!("an allocation of {m} bytes was requested with {n} bytes of data, limit {lim}"); }
    st.hit((&c.data, api));
    Ok(())
}
// ------------------------------------------------------------------ C16
struct SliceJob { k: usize, n: usize, skip: usize, how: u8, range: (usize, usize) }
#[derive(Debug, PartialEq, Clone)]
enum SliceGot { Err(String), None, Val { v: String, borrowed: bool, inside: bool } }
impl Job for SliceJob {
    type Out = SliceGot;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> SliceGot {
        if p.parse_bytes(self.skip).is_err() { return SliceGot::Err("skip".into()); }
        fn go<'p, T: El<'p> + 'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, j: &SliceJob) -> SliceGot {
            let ins = |s: &[T]| s.is_empty() || (s.as_ptr() as usize >= j.range.0 && s.as_ptr() as usize + std::mem::size_of_val(s) <= j.range.1);
            let er = |e: ParseError| SliceGot::Err(kind(&e).into());
            match j.how {
                0 => match unsafe { p.parse_slice_direct::<T>(j.n) } { Err(e) => er(e), Ok(None) => SliceGot::None, Ok(Some(s)) => SliceGot::Val { v: els(s), borrowed: true, inside: ins(s) } },
                1 => match unsafe { p.parse_slice::<T>(j.n) } { Err(e) => er(e), Ok(Cow::Borrowed(s)) => SliceGot::Val { v: els(s), borrowed: true, inside: ins(s) }, Ok(Cow::Owned(s)) => SliceGot::Val { v: els(&s), borrowed: false, inside: true } },
                _ => match p.parse_repeated::<T>(j.n) { Err(e) => er(e), Ok(s) => SliceGot::Val { v: els(&s), borrowed: false, inside: true } },
            }
        }
        match self.k { 0 => go::<u8, _, _>(p, self), 1 => go::<u16, _, _>(p, self), 2 => go::<u32, _, _>(p, self), 3 => go::<u64, _, _>(p, self), 4 => go::<NamespaceEntry, _, _>(p, self), _ => go::<BranchEntry, _, _>(p, self) }
    }
}
fn c16(r: &mut Rng, st: &mut Stat) -> Res {
    let k = r.us(6);
    let size = SZ[k];
    let align = [1, 2, 4, 8, 8, 8][k];
    let (off, end, cfg) = (r.us(8), *r.pick(&ENDS), Cfg::default());
    let mut skip = if r.p(1, 2) { 0 } else { r.us(12) };
    if r.p(2, 3) { while (off + skip) % align != 0 { skip += 1 } }
    let have = r.us(12);
    let dlen = skip + have * size + r.us(2) * r.us(size);
    let mut data = r.bytes(dlen);
    if r.p(1, 2) { let m = r.us(30); data.extend(r.bytes(m)); }
    let n = match r.below(10) { 0 => 0, 1 => have + 1, 2 => (usize::MAX / size).wrapping_add(r.us(3)), 3 => r.word() as usize, 4 => (1usize << 61) + r.us(3), _ => r.us(have + 1) };
    let src = SrcSpec::random(r, data.len());
    set(&data, off, &src, &cfg, end, format!("skip {skip}, slice of {n} elements of {size} bytes"));
    let b = Buf::new(&data, off);
    let range = (b.get().as_ptr() as usize, b.get().as_ptr() as usize + data.len());
    let run = |how: u8| with_parser(b.get(), &src, &cfg, end, &mut SliceJob { k, n, skip, how, range });
    let bad_place = end.native() && src.borrows() && n > 0 && (off + skip) % align != 0;
    let (rep, nrep) = run(2);
    let mut d = Dec::new(&data, off, end.be());
    d.pos = skip;
    if data.len() < skip { return Ok(()); }
    let want = ref_els(&mut d, k, n);
    match (&want, &rep) {
        (Ok(w), SliceGot::Val { v, .. }) => { same!(w, v, "parse_repeated"); same!(d.pos, nrep, "bytes consumed by parse_repeated"); }
        (Err(_), SliceGot::Err(_)) => {}
        _ => bail!("parse_repeated: expected {want:?}, got {rep:?}"),
    }
    if bad_place { st.skipped += 1; return Ok(()); }
    let (sl, nsl) = run(1);
    match (&rep, &sl) {
        (SliceGot::Val { v, .. }, SliceGot::Val { v: w, borrowed, inside }) => {
            same!(v, w, "parse_slice differs from the element-wise parse");
            same!(nrep, nsl, "bytes consumed by parse_slice");
            if *borrowed && !inside { bail!("the borrowed slice lies outside the source data"); }
            if *borrowed && n > 0 && !end.native() { bail!("borrowed although the byte order is not the host's"); }
        }
        (SliceGot::Err(_), SliceGot::Err(_)) => {}
        _ => bail!("parse_repeated gave {rep:?}, parse_slice {sl:?}"),
    }
    let (di, ndi) = run(0);
    match &di {
        SliceGot::None => { same!(skip, ndi, "bytes consumed although parse_slice_direct returned nothing"); }
        SliceGot::Val { v, inside, .. } => {
            if !end.native() { bail!("parse_slice_direct borrowed although the byte order is not the host's"); }
            if !inside { bail!("the borrowed slice lies outside the source data"); }
            same!(want, Ok(v.clone()), "parse_slice_direct");
            same!(skip + n * size, ndi, "bytes consumed by parse_slice_direct");
        }
        SliceGot::Err(_) => if want.is_ok() { bail!("parse_slice_direct failed on data that parses: {di:?}") },
    }
    if let (SrcSpec::Slice, true, Ok(_)) = (&src, end.native(), &want) { if di == SliceGot::None { bail!("aligned native data was not borrowed"); } }
    st.hit((&data, k, n, skip, off));
    Ok(())
}
// ------------------------------------------------------------------ C17
fn c17(r: &mut Rng, st: &mut Stat) -> Res {
    let cfg = gen::cfg(r);
    let cfg = Cfg { rf: cfg.rf & 31, ..cfg };
    let end = *r.pick(&ENDS);
    let mut w = gen::W::new(end.be());
    gen::sample(r, &mut w, &cfg, false);
    let data = w.v;
    let src = SrcSpec::random(r, data.len());
    set(&data, 0, &src, &cfg, end, "optional fields");
    let mut d = Dec::new(&data, 0, end.be());
    let e = refdec::sample(&mut d, &cfg);
    if d.misaligned { st.skipped += 1; return Ok(()); }
    let e = match e { Ok(e) => e, Err(_) => { st.skipped += 1; return Ok(()) } };
    let on = |b: u32| cfg.st >> b & 1 != 0;
    let present: Vec<bool> = vec![on(0), on(1), on(1), on(2), on(3), on(6) || on(16), on(9), on(7), on(8), on(4), on(5), on(10), on(11) && cfg.hw, on(11), on(12), on(13), on(14) || on(24), on(15), on(17), on(18), on(19), on(20), on(21), on(22), on(23)];
    let b = Buf::new(&data, 0);
    struct J<'a>(&'a dyn Fn(&Sample, &mut Rng) -> Res, Rng);
    impl Job for J<'_> {
        type Out = Res;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Res {
            match p.parse::<Sample>() { Ok(s) => { (self.0)(&s, &mut self.1)?; let c = s.clone(); drop(s); (self.0)(&c, &mut self.1) } Err(e) => fail(format!("valid sample rejected: {}", kind(&e))) }
        }
    }
    let f = |s: &Sample, r: &mut Rng| -> Res {
        let got = sample_fields(s);
        for i in 0..25 {
            if got[i].is_some() != present[i] { bail!("field {} is {} although it was {}recorded", refdec::SAMPLE_FIELDS[i], if present[i] { "absent" } else { "present" }, if present[i] { "" } else { "not " }); }
            same!(e[i], got[i], "field {}", refdec::SAMPLE_FIELDS[i]);
        }
        let mut clones: Vec<Sample> = vec![s.clone()];
        for _ in 0..r.us(3) { let k = r.us(clones.len()); let c = clones[k].clone(); clones.push(c); }
        while !clones.is_empty() {
            let k = r.us(clones.len());
            let c = clones.swap_remove(k);
            let g = sample_fields(&c);
            for i in 0..25 { same!(got[i], g[i], "cloned field {}", refdec::SAMPLE_FIELDS[i]); }
            if r.p(1, 2) { let moved = Box::new(c); same!(got, sample_fields(&moved), "moved sample"); }
        }
        let id = match r.below(3) { 0 => SampleId::from(s), 1 => SampleId::from(s.clone()), _ => SampleId::from_sample(s) };
        let want = refdec::sid_str([s.pid().map(|x| x as u64), s.tid().map(|x| x as u64), s.time(), s.id(), s.stream_id(), s.cpu().map(|x| x as u64)]);
        same!(want, id.dump(), "SampleId of a sample");
        #[allow(clippy::clone_on_copy)]
        let c = id.clone();
        let k = id;
        same!(want, c.dump(), "cloned SampleId");
        same!(want, k.dump(), "copied SampleId");
        same!(refdec::sid_str([None; 6]), SampleId::default().dump(), "default SampleId");
        Ok(())
    };
    // once to warm up, once to count
    with_parser(b.get(), &src, &cfg, end, &mut J(&f, r.clone())).0?;
    let live = LIVE.get();
    let res = with_parser(b.get(), &src, &cfg, end, &mut J(&f, r.clone())).0;
    let after = LIVE.get();
    res?;
    same!(live, after, "live heap bytes before and after (a leak or a double drop)");
    let s = SampleId::default();
    same!(refdec::sid_str([None; 6]), s.dump(), "default SampleId");
    st.hit((&data, cfg.st));
    Ok(())
}
// ------------------------------------------------------------------ C18
fn c18(r: &mut Rng, st: &mut Stat) -> Res {
    let end = *r.pick(&ENDS);
    let w = match r.below(4) { 0 => 1u64 << r.below(64), 1 => !(1u64 << r.below(64)), _ => r.word() };
    let (from, to) = (r.word(), r.word());
    let mut wr = gen::W::new(end.be());
    for x in [w, from, to, w, w, w] { wr.u64(x) }
    let cfg = Cfg::default();
    let src = SrcSpec::random(r, wr.v.len());
    set(&wr.v, 0, &src, &cfg, end, format!("word {w:#x}"));
    struct J(u64);
    impl Job for J {
        type Out = ParseResult<Vec<(String, String)>>;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
            let w = self.0;
            let mut v = vec![];
            let ds: DataSource = p.parse()?;
            v.push((refdec::data_src_str(w), ds.dump()));
            let br: BranchEntry = p.parse()?;
            v.push((String::new(), br.dump()));
            let tx: Txn = p.parse()?;
            v.push((format!("txn {w:x} {:x}", w >> 32), format!("txn {:x} {:x}", tx.bits(), tx.abort())));
            let af: AuxFlags = p.parse()?;
            v.push((format!("aux {w:x} {:x}", w >> 8 & 0xff), format!("aux {:x} {:x}", af.bits(), af.pmu_format_type().0)));
            Ok(v)
        }
    }
    let b = Buf::new(&wr.v, 0);
    let (v, _) = with_parser(b.get(), &src, &cfg, end, &mut J(w));
    let mut v = match v { Ok(v) => v, Err(e) => bail!("not parsed: {}", kind(&e)) };
    v[1].0 = refdec::branch_str(&[from, to, w]);
    for (e, g) in v { same!(e, g, "bit fields of {w:#x}"); }
    let (a, b) = (r.word(), r.word());
    note(format!("MemSnoop::new({a:#x}, {b:#x})"));
    same!((a & 31) << 19 | (b & 3) << 38, MemSnoop::new(a, b).bits(), "MemSnoop::new");
    // the named flags are the kernel's bits
    let consts = [(MemOp::NA.bits(), 1), (MemOp::LOAD.bits(), 2), (MemOp::STORE.bits(), 4), (MemOp::PFETCH.bits(), 8), (MemOp::EXEC.bits(), 16),
        (MemLevel::NA.bits(), 1), (MemLevel::HIT.bits(), 2), (MemLevel::MISS.bits(), 4), (MemLevel::L1.bits(), 8), (MemLevel::LFB.bits(), 16), (MemLevel::L2.bits(), 32), (MemLevel::L3.bits(), 64),
        (MemLevel::LOC_RAM.bits(), 128), (MemLevel::REM_RAM1.bits(), 256), (MemLevel::REM_RAM2.bits(), 512), (MemLevel::REM_CCE1.bits(), 1024), (MemLevel::REM_CCE2.bits(), 2048), (MemLevel::IO.bits(), 4096), (MemLevel::UNC.bits(), 8192),
        (MemLock::NA.bits(), 1), (MemLock::LOCKED.bits(), 2), (MemDtlb::NA.bits(), 1), (MemDtlb::HIT.bits(), 2), (MemDtlb::MISS.bits(), 4), (MemDtlb::L1.bits(), 8), (MemDtlb::L2.bits(), 16), (MemDtlb::WK.bits(), 32), (MemDtlb::OS.bits(), 64),
        (MemBlk::NA.bits(), 1), (MemBlk::DATA.bits(), 2), (MemBlk::ADDR.bits(), 4), (MemSnoopX::FWD.bits(), 1), (MemSnoopX::PEER.bits(), 2),
        (MemSnoop::NA.bits(), 1 << 19), (MemSnoop::NONE.bits(), 2 << 19), (MemSnoop::HIT.bits(), 4 << 19), (MemSnoop::MISS.bits(), 8 << 19), (MemSnoop::HITM.bits(), 16 << 19), (MemSnoop::FWD.bits(), 1 << 38), (MemSnoop::PEER.bits(), 2 << 38),
        (Txn::ELISION.bits(), 1), (Txn::TRANSACTION.bits(), 2), (Txn::SYNC.bits(), 4), (Txn::ASYNC.bits(), 8), (Txn::RETRY.bits(), 16), (Txn::CONFLICT.bits(), 32), (Txn::CAPACITY_WRITE.bits(), 64), (Txn::CAPACITY_READ.bits(), 128), (Txn::ABORT_MASK.bits(), 0xffffffff << 32),
        (AuxFlags::TRUNCATED.bits(), 1), (AuxFlags::OVERWRITE.bits(), 2), (AuxFlags::PARTIAL.bits(), 4), (AuxFlags::COLLISION.bits(), 8), (AuxFlags::PMU_FORMAT_MASK.bits(), 0xff00)];
    for (i, (a, b)) in consts.iter().enumerate() { same!(b, a, "named flag {i}"); }
    let nums = [(MemLevelNum::L1.0, 1), (MemLevelNum::L2.0, 2), (MemLevelNum::L3.0, 3), (MemLevelNum::L4.0, 4), (MemLevelNum::ANY_CACHE.0, 11), (MemLevelNum::LFB.0, 12), (MemLevelNum::RAM.0, 13), (MemLevelNum::PMEM.0, 14), (MemLevelNum::NA.0, 15),
        (BranchType::UNKNOWN.0, 0), (BranchType::COND.0, 1), (BranchType::UNCOND.0, 2), (BranchType::IND.0, 3), (BranchType::CALL.0, 4), (BranchType::IND_CALL.0, 5), (BranchType::RET.0, 6), (BranchType::SYSCALL.0, 7), (BranchType::COND_CALL.0, 9), (BranchType::COND_RET.0, 10),
        (AuxPmuFormatType::CORESIGHT.0, 0), (AuxPmuFormatType::CORESIGHT_RAW.0, 1)];
    for (i, (a, b)) in nums.iter().enumerate() { same!(b, a, "named number {i}"); }
    st.hit(w);
    Ok(())
}
// ------------------------------------------------------------------ C19
fn faulty(r: &mut Rng, len: usize) -> (SrcSpec, FaultKind) {
    let at = r.us(len + 2);
    let kind = match r.below(6) { 0 => FaultKind::Custom(r.below(1000)), 1 => FaultKind::Boxed(r.below(1000)), 2 | 3 => FaultKind::Io(r.below(1000)), 4 => FaultKind::IoEof, _ => FaultKind::Eof };
    let s = match SrcSpec::random(r, len) {
        SrcSpec::Chunks { cuts, tmp, hint } => SrcSpec::Faulty { cuts, tmp, hint, at, kind: kind.clone() },
        SrcSpec::Reader { cap, step } if matches!(kind, FaultKind::Io(_) | FaultKind::IoEof) => SrcSpec::FaultyReader { cap, step, at, kind: kind.clone() },
        _ => SrcSpec::Faulty { cuts: if len == 0 { vec![] } else { vec![len] }, tmp: if len == 0 { vec![] } else { vec![r.p(1, 2)] }, hint: r.p(1, 2), at, kind: kind.clone() },
    };
    (s, kind)
}
fn is_fault(e: &ParseError, k: &FaultKind) -> Res {
    let src = e.source();
    let inner = |n: u64| -> bool { src.and_then(|s| s.downcast_ref::<Fault>()).map(|f| f.0 == n).unwrap_or(false) };
    let io = |kind: std::io::ErrorKind, n: u64| -> bool { src.and_then(|s| s.downcast_ref::<std::io::Error>()).map(|e| e.kind() == kind && e.get_ref().and_then(|e| e.downcast_ref::<Fault>()).map(|f| f.0) == Some(n)).unwrap_or(false) };
    let (ok, want) = match k {
        FaultKind::Custom(n) | FaultKind::Boxed(n) => (e.kind() == ErrorKind::External && inner(*n), "External"),
        FaultKind::Io(n) => (e.kind() == ErrorKind::External && io(io_kind(*n), *n), "External (io)"),
        FaultKind::IoEof => (e.kind() == ErrorKind::Eof && io(std::io::ErrorKind::UnexpectedEof, 77), "Eof (io)"),
        FaultKind::Eof => (e.kind() == ErrorKind::Eof && src.is_none(), "Eof"),
    };
    if !ok { bail!("the source failed with {k:?} (expected kind {want} and that error as the source), the parser returned kind {} with source {:?}", kind(e), src.map(|s| s.to_string())); }
    Ok(())
}
struct ErrJob { api: usize, ty: u32 }
impl Job for ErrJob {
    type Out = Result<String, ParseError>;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
        fn d<T: Dump>(x: ParseResult<T>) -> Result<String, ParseError> { x.map(|x| x.dump()) }
        match self.api {
            0 => p.parse_record(All).map(|s| s.rec),
            1 => p.parse::<Record>().map(|s| of_record(s).rec),
            2 => match self.ty { 1 => d(p.parse::<Mmap>()), 3 => d(p.parse::<Comm>()), 9 => d(p.parse::<Sample>()), 10 => d(p.parse::<Mmap2>()), 16 => d(p.parse::<Namespaces>()), 20 => d(p.parse::<TextPoke>()), 8 => d(p.parse::<Read>()), 4 => d(p.parse::<Exit>()), 18 => d(p.parse::<BpfEvent>()), 17 => d(p.parse::<KSymbol>()), _ => d(p.parse::<SwitchCpuWide>()) },
            _ => d(p.parse::<perf_event_attr>()),
        }
    }
}
fn c19(r: &mut Rng, st: &mut Stat) -> Res {
    // an operation, its reference on any prefix of the data
    let end = *r.pick(&ENDS);
    let which = r.below(3);
    let (data, cfg, ty, api, ops);
    if which == 0 {
        data = some_data(r);
        cfg = gen::cfg(r);
        let k = 1 + r.us(4);
        ops = (0..k).map(|_| op(r, data.len(), 0, true)).collect::<Vec<_>>();
        ty = 0;
        api = 0;
    } else {
        ops = vec![];
        let mut c = rec_case(r, &[1, 3, 4, 8, 9, 9, 10, 15, 16, 17, 18, 20], true);
        api = if which == 1 { r.us(2) } else { 2 + r.us(2) };
        ty = c.ty;
        cfg = c.cfg;
        let mut w = gen::W::new(end.be());
        if api == 2 { gen::body(r, &mut w, &cfg, ty, 0, true); c.data = w.v; if r.p(1, 3) { gen::damage(r, &mut c.data) } }
        else if api == 3 { c.data = attr_case(r, end.be()) }
        else if c.end.be() != end.be() { c.data.clear(); gen::record(r, &mut c.data, &cfg, end.be(), ty, c.misc, true); if r.p(1, 3) { gen::damage(r, &mut c.data) } }
        data = c.data;
    }
    // (result on this prefix, whether it looked beyond it, misaligned slices)
    let reference = |d: &[u8]| -> (R<String>, bool, bool) {
        let mut dec = Dec::new(d, 0, end.be());
        if which == 0 {
            let mut s = String::new();
            for o in &ops { match ref_op(&mut dec, o) { Ok(x) => s += &x, Err(k) => return (Err(k), dec.hit_end, dec.misaligned) } }
            return (Ok(s), dec.hit_end, dec.misaligned);
        }
        match api {
            2 => { let x = refdec::body(&mut dec, &cfg, if [1, 3, 9, 10, 16, 20, 8, 4, 18, 17].contains(&ty) { ty } else { 15 }, 0); (x, dec.hit_end, dec.misaligned) }
            3 => { let x = refdec::attr(&mut dec); (x, dec.hit_end, false) }
            _ => match refdec::frame(&mut dec, &cfg) {
                Err(k) => (Err(k), dec.hit_end, false),
                Ok(f) => { let mut b = Dec::new(f.body, f.body_off, end.be()); let x = refdec::body(&mut b, &cfg, f.ty, f.misc); (x, false, b.misaligned) }
            },
        }
    };
    let run = |s: &SrcSpec, b: &Buf| -> Result<String, ParseError> {
        if which == 0 { let x = with_parser(b.get(), s, &cfg, end, &mut OpsJob { ops: &ops, config_same: true }).0; match x.1 { Some(e) => Err(e), None => Ok(x.0.into_iter().map(|x| x.unwrap()).collect()) } }
        else { with_parser(b.get(), s, &cfg, end, &mut ErrJob { api, ty }).0 }
    };
    let what = if which == 0 { format!("{ops:?}") } else { format!("{} type {ty}", ["parse_record", "Record", "typed", "attr"][api]) };
    let b = Buf::new(&data, 0);
    // 1. kinds on well-behaved sources
    let src = if r.p(1, 2) { SrcSpec::Slice } else { SrcSpec::random(r, data.len()) };
    set(&data, 0, &src, &cfg, end, &what);
    let (e, _, mis) = reference(&data);
    if end.native() && mis { st.skipped += 1; return Ok(()); }
    match (&e, &run(&src, &b)) {
        (Ok(_), Ok(_)) => {}
        (Ok(_), Err(x)) => bail!("valid data rejected with {}", kind(x)),
        (Err(k), Ok(v)) => bail!("expected {k:?}, got {v}"),
        (Err(k), Err(x)) => if !k.0.contains(&kind(x)) { bail!("expected {k:?}, got {}", kind(x)) },
    }
    // 2. a failing source
    let (src, fk) = faulty(r, data.len());
    set(&data, 0, &src, &cfg, end, what);
    let at = match &src { SrcSpec::Faulty { at, .. } | SrcSpec::FaultyReader { at, .. } => *at, _ => unreachable!() };
    // a reader that merely ends is not failing
    let (e, beyond, mis) = reference(&data[..at.min(data.len())]);
    if end.native() && mis { st.skipped += 1; return Ok(()); }
    let rest = which == 0 && ops.iter().any(has_rest) || which != 0 && api == 2;
    let g = run(&src, &b);
    if beyond && at <= data.len() {
        if matches!(fk, FaultKind::Eof | FaultKind::IoEof) && rest { st.skipped += 1; return Ok(()); }
        // reading one by one or all at once: a count that overflows is also an answer
        match (&e, &g) { (Err(k), Err(x)) if *k == refdec::OVF && kind(x) == "InvalidRecord" => {} (_, Err(x)) => is_fault(x, &fk)?, (_, Ok(v)) => bail!("the source failed at byte {at} with {fk:?} but parsing returned {v}") }
    } else {
        match (&e, &g) {
            (Ok(_), Ok(_)) => {}
            (Ok(_), Err(x)) => if at >= data.len() && beyond { is_fault(x, &fk)? } else { bail!("failed with {} though the failing position {at} was not needed", kind(x)) },
            (Err(k), Err(x)) => if !k.0.contains(&kind(x)) { bail!("expected {k:?}, got {}", kind(x)) },
            (Err(k), Ok(v)) => bail!("expected {k:?}, got {v}"),
        }
    }
    // 3. the constructors
    let n = r.below(1000);
    let c = |e: ParseError, k: FaultKind| is_fault(&e, &k);
    note("constructors");
    c(ParseError::new(Fault(n)), FaultKind::Custom(n))?;
    c(ParseError::from(Box::new(Fault(n)) as Box<dyn std::error::Error + Send + Sync>), FaultKind::Boxed(n))?;
    c(ParseError::from(std::io::Error::new(io_kind(n), Fault(n))), FaultKind::Io(n))?;
    c(ParseError::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Fault(77))), FaultKind::IoEof)?;
    c(ParseError::eof(), FaultKind::Eof)?;
    st.hit((&data, at, which, api));
    Ok(())
}
fn has_rest(o: &Op) -> bool { match o { Op::Rest | Op::Trim => true, Op::With(f) => has_rest(f), Op::IfWith(_, f, g) => has_rest(f) || has_rest(g), _ => false } }
// ------------------------------------------------------------------ C20
fn c20(r: &mut Rng, st: &mut Stat) -> Res {
    let data = some_data(r);
    let (end, cfg) = (*r.pick(&ENDS), gen::cfg(r));
    let nops = 1 + r.us(6);
    let mut left = data.len();
    let mut ops = vec![];
    for _ in 0..nops { let h = r.p(1, 4); let o = op(r, left, 0, h); let mut d = Dec::new(&data[data.len() - left..], 0, false); let _ = ref_op(&mut d, &o); left -= d.pos; ops.push(o); }
    let src = SrcSpec::random(r, data.len());
    set(&data, 0, &src, &cfg, end, format!("{ops:?}"));
    let mut d = Dec::new(&data, 0, end.be());
    let mut want = vec![];
    let mut err = false;
    for o in &ops { match ref_op(&mut d, o) { Ok(s) => want.push(s), Err(_) => { err = true; break } } }
    if kf1(end, &src, d.misaligned) { st.skipped += 1; return Ok(()); }
    let b = Buf::new(&data, 0);
    let mut j = OpsJob { ops: &ops, config_same: true };
    let ((g, e), n) = with_parser(b.get(), &src, &cfg, end, &mut j);
    let gv: Vec<String> = g.iter().filter_map(|x| x.clone().ok()).collect();
    same!(want, gv, "results of the operations");
    same!(err, e.is_some(), "an operation fails");
    if !err { same!(d.pos, n, "bytes consumed"); }
    if !j.config_same { bail!("the configuration changed while parsing"); }
    st.hit((&data, nops, want.len()));
    Ok(())
}
// ------------------------------------------------------------------ C21
fn c21(r: &mut Rng, st: &mut Stat) -> Res {
    let c = rec_case(r, &[1, 3, 8, 9, 10, 10, 16, 17, 18, 19, 20, 2, 11, 12, 13, 15, 21], false);
    let src = SrcSpec::random(r, c.data.len());
    set(&c.data, 0, &src, &c.cfg, c.end, format!("conversions of type {}", c.ty));
    let mut buf = Buf::new(&c.data, 0);
    if expect(&c.data, 0, c.end.be(), &c.cfg).misaligned { st.skipped += 1; return Ok(()); }
    enum Own { Mmap(Mmap<'static>), Mmap2(Mmap2<'static>), Comm(Comm<'static>), CGroup(CGroup<'static>), KSymbol(KSymbol<'static>), TextPoke(TextPoke<'static>), Group(ReadGroup<'static>), No }
    struct J { again: bool }
    impl Job for J {
        type Out = Result<(String, Own), String>;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out {
            let r = match p.parse::<Record>() { Ok(r) => r, Err(_) => return Ok((String::new(), Own::No)) };
            let s = of_record(r.clone()).rec;
            let f = |r: Record| -> String { r.dump() };
            macro_rules! wrap { ($x:expr, $n:literal) => { same!(format!("{}: {s}", $n), f(Record::from($x.clone())), "Record::from") } }
            let again = self.again;
            Ok((s.clone(), match r {
                Record::Mmap(x) => { wrap!(x, "mmap"); let o = x.into_owned(); Own::Mmap(if again { o.into_owned() } else { o }) }
                Record::Comm(x) => { wrap!(x, "comm"); let o = x.into_owned(); Own::Comm(if again { o.into_owned() } else { o }) }
                Record::CGroup(x) => { wrap!(x, "cgroup"); let o = x.into_owned(); Own::CGroup(if again { o.into_owned() } else { o }) }
                Record::KSymbol(x) => { wrap!(x, "ksymbol"); let o = x.into_owned(); Own::KSymbol(if again { o.into_owned() } else { o }) }
                Record::TextPoke(x) => { wrap!(x, "text_poke"); let o = x.to_owned(); Own::TextPoke(if again { o.to_owned() } else { o }) }
                Record::Mmap2(x) => {
                    wrap!(x, "mmap2");
                    let want = format!("Mmap {:x} {:x} {:x} {:x} {:x} {}", x.pid, x.tid, x.addr, x.len, x.pgoff, hex(&x.filename));
                    same!(want, x.to_mmap().dump(), "to_mmap");
                    same!(want, x.clone().into_mmap().dump(), "into_mmap");
                    same!(want, Mmap::from(x.clone()).dump(), "Mmap::from(Mmap2)");
                    same!(want, x.clone().into_owned().into_mmap().dump(), "into_mmap of an owned record");
                    let o = x.into_owned();
                    Own::Mmap2(if again { o.into_owned() } else { o })
                }
                Record::Sample(x) => {
                    same!(format!("sample: {s}"), f(Record::from((*x).clone())), "Record::from");
                    match x.values() { Some(v) => return Ok((v.dump(), Own::Group(v.clone().into_owned()))), None => Own::No }
                }
                Record::Lost(x) => { wrap!(x, "lost"); Own::No } Record::Read(x) => { wrap!(x, "read"); Own::No } Record::Aux(x) => { wrap!(x, "aux"); Own::No }
                Record::ITraceStart(x) => { wrap!(x, "itrace_start"); Own::No } Record::LostSamples(x) => { wrap!(x, "lost_samples"); Own::No }
                Record::SwitchCpuWide(x) => { wrap!(x, "switch_cpu_wide"); Own::No } Record::Namespaces(x) => { wrap!(x, "namespaces"); Own::No }
                Record::BpfEvent(x) => { wrap!(x, "bpf_event"); Own::No } Record::AuxOutputHwId(x) => { wrap!(x, "aux_output_hw_id"); Own::No }
                _ => Own::No,
            }))
        }
    }
    let again = r.p(1, 3);
    let (s, o) = with_parser(buf.get(), &src, &c.cfg, c.end, &mut J { again }).0?;
    // the source is gone before the owned value is looked at
    buf = Buf::new(&vec![0x99; c.data.len()], 0);
    let _ = buf.get();
    let g = match &o { Own::Mmap(x) => x.dump(), Own::Mmap2(x) => x.dump(), Own::Comm(x) => x.dump(), Own::CGroup(x) => x.dump(), Own::KSymbol(x) => x.dump(), Own::TextPoke(x) => x.dump(), Own::Group(x) => x.dump(), Own::No => s.clone() };
    same!(s, g, "owned value");
    st.hit(&c.data);
    Ok(())
}
// ------------------------------------------------------------------ C22
fn unquote(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' { return None; }
        if c != '\\' { let mut b = [0; 4]; out.extend(c.encode_utf8(&mut b).bytes()); continue; }
        match it.next()? {
            'n' => out.push(b'\n'), 't' => out.push(b'\t'), 'r' => out.push(b'\r'), '0' => out.push(0), '\\' => out.push(b'\\'), '"' => out.push(b'"'), '\'' => out.push(b'\''),
            'x' => { let h: String = [it.next()?, it.next()?].iter().collect(); out.push(u8::from_str_radix(&h, 16).ok()?) }
            'u' => {
                if it.next()? != '{' { return None; }
                let mut h = String::new();
                loop { match it.next()? { '}' => break, c => h.push(c) } }
                let c = char::from_u32(u32::from_str_radix(&h, 16).ok()?)?;
                let mut b = [0; 4];
                out.extend(c.encode_utf8(&mut b).bytes());
            }
            _ => return None,
        }
    }
    Some(out)
}
/// the fields of what `{:?}` wrote for a struct: its outermost braces, split at the commas directly inside
fn shown_fields(s: &str) -> Option<Vec<(String, String)>> {
    let i = s.find('{')?;
    let mut out: Vec<String> = vec![String::new()];
    let (mut depth, mut str_) = (0, false);
    let mut it = s[i..].chars();
    while let Some(c) = it.next() {
        if str_ { out.last_mut()?.push(c); match c { '"' => str_ = false, '\\' => out.last_mut()?.push(it.next()?), _ => {} } continue; }
        match c {
            '{' | '[' | '(' => { depth += 1; if depth == 1 { continue } }
            '}' | ']' | ')' => { depth -= 1; if depth == 0 { break } }
            ',' if depth == 1 => { out.push(String::new()); continue }
            '"' => str_ = true,
            _ => {}
        }
        out.last_mut()?.push(c);
    }
    if depth != 0 || it.next().is_some() { return None; }
    out.iter().map(|x| x.trim()).filter(|x| !x.is_empty() && *x != "..").map(|x| x.split_once(": ").map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}
fn same_shown(what: &str, want: Vec<(&str, Option<String>)>, got: &str) -> Res {
    let want: Vec<(String, String)> = want.into_iter().filter_map(|(n, v)| v.map(|v| (n.to_string(), v))).collect();
    match shown_fields(got) { Some(g) => { same!(format!("{want:?}"), format!("{g:?}"), "fields in the Debug output of {what} {got}"); Ok(()) } None => fail(format!("Debug output of {what} is not a struct: {got}")) }
}
fn d<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}") }
fn od<T: std::fmt::Debug>(x: Option<T>) -> Option<String> { x.map(d) }
fn shown_value(v: &ReadValue) -> Res {
    same_shown("a read value", vec![("value", Some(d(v.value()))), ("time_enabled", od(v.time_enabled())), ("time_running", od(v.time_running())), ("id", od(v.id())), ("lost", od(v.lost()))], &d(v))
}
fn shown_group(g: &ReadGroup) -> Res {
    for e in g.entries() { same_shown("a group entry", vec![("value", Some(d(e.value()))), ("id", od(e.id())), ("lost", od(e.lost()))], &d(&e))?; }
    same_shown("a group read", vec![("time_enabled", od(g.time_enabled())), ("time_running", od(g.time_running())), ("entries", Some(d(g.entries().collect::<Vec<_>>())))], &d(g))
}
fn shown_id(s: &SampleId) -> Res {
    same_shown("a sample id", vec![("pid", od(s.pid())), ("tid", od(s.tid())), ("time", od(s.time())), ("id", od(s.id())), ("stream_id", od(s.stream_id())), ("cpu", od(s.cpu()))], &d(s))
}
fn hex_addr(x: Option<u64>) -> Option<String> { x.map(|x| format!("{x:#016X}")) }
fn shown_sample(s: &Sample) -> Res {
    if let Some(v) = s.values() { shown_group(v)?; }
    if let Some(v) = s.data_src() {
        same_shown("a data source", vec![("mem_op", Some(d(v.mem_op()))), ("mem_lvl", Some(d(v.mem_lvl()))), ("mem_snoop", Some(d(v.mem_snoop()))), ("mem_lock", Some(d(v.mem_lock()))),
            ("mem_dtlb", Some(d(v.mem_dtlb()))), ("mem_lvl_num", Some(d(v.mem_lvl_num()))), ("mem_remote", Some(d(v.mem_remote()))), ("mem_blk", Some(d(v.mem_blk()))), ("mem_hops", Some(d(v.mem_hops())))], &d(v))?;
    }
    shown_id(&SampleId::from_sample(s))?;
    same_shown("a sample", vec![("ip", od(s.ip())), ("pid", od(s.pid())), ("tid", od(s.tid())), ("time", od(s.time())), ("addr", hex_addr(s.addr())), ("id", od(s.id())), ("stream_id", od(s.stream_id())),
        ("cpu", od(s.cpu())), ("period", od(s.period())), ("values", od(s.values())), ("callchain", od(s.callchain())), ("raw", od(s.raw())), ("lbr_hw_index", od(s.lbr_hw_index())), ("lbr", od(s.lbr())),
        ("regs_user", od(s.regs_user())), ("stack_user", od(s.stack_user())), ("weight", od(s.weight())), ("data_src", od(s.data_src())), ("transaction", od(s.transaction())), ("regs_intr", od(s.regs_intr())),
        ("phys_addr", hex_addr(s.phys_addr())), ("aux", od(s.aux())), ("cgroup", od(s.cgroup())), ("data_page_size", od(s.data_page_size())), ("code_page_size", od(s.code_page_size()))], &d(s))
}
fn c22_fields(r: &mut Rng) -> Res {
    let cfg = gen::cfg(r);
    let cfg = Cfg { rf: cfg.rf & 31, ..cfg };
    let mut w = gen::W::new(false);
    let k = r.below(3);
    match k { 0 => gen::words(r, &mut w, 1 + (cfg.rf & 23).count_ones() as usize), 1 => { let n = r.us(16) as u64; w.u64(r.word()); w.u16(n); w.u16(r.below(16)); for _ in 0..48 { let x = r.u64(); w.v.push(x as u8) } } _ => gen::sample(r, &mut w, &cfg, false) }
    set(&w.v, 0, &SrcSpec::Slice, &cfg, End::Little, ["Debug of a read value", "Debug of a text poke", "Debug of a sample"][k as usize]);
    struct J(u64);
    impl Job for J {
        type Out = Res;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Res {
            match self.0 {
                0 => if let Ok(v) = p.parse::<ReadValue>() { shown_value(&v)?; shown_group(&ReadGroup::from(v))? },
                1 => if let Ok(v) = p.parse::<TextPoke>() { same_shown("a text poke", vec![("addr", hex_addr(Some(v.addr))), ("old_bytes", Some(d(&v.old_bytes))), ("new_bytes", Some(d(&v.new_bytes)))], &d(&v))? },
                _ => if let Ok(v) = p.parse::<Sample>() { shown_sample(&v)? },
            }
            Ok(())
        }
    }
    let buf = Buf::new(&w.v, 0);
    with_parser(buf.get(), &SrcSpec::Slice, &cfg, End::Little, &mut J(k)).0
}
fn c22(r: &mut Rng, st: &mut Stat) -> Res {
    c22_fields(r)?;
    // strings
    let mut b: Vec<u8> = vec![];
    for _ in 0..r.us(6) {
        match r.below(9) {
            0 => b.extend("héllo wörld".bytes()), 1 => b.extend("日本\u{10ffff}\u{200b}".bytes()), 2 => b.extend([0xff, 0xfe]), 3 => b.extend([0xe2, 0x82]), 4 => b.extend([0xf0, 0x9f, 0x98]),
            5 => b.extend(b"\\\"'\n\t\r\0\x01\x7f\\x41"), 6 => { let n = r.us(6); b.extend(r.bytes(n)) } 7 => b.extend([0xc3]), _ => b.extend(b"/usr/lib/x.so"),
        }
    }
    while b.last() == Some(&0) { b.pop(); }
    let cfg = Cfg::default();
    set(&b, 0, &SrcSpec::Slice, &cfg, End::Little, "Debug of a byte string");
    let mut w = gen::W::new(false);
    let k = r.below(4);
    let (pre, key) = match k { 0 => (32, "filename: "), 1 => (8, "comm: "), 2 => (8, "path: "), _ => (16, "name: ") };
    for _ in 0..pre { let x = r.u64(); w.v.push(x as u8) }
    w.v.extend(&b);
    struct J(u64);
    impl Job for J {
        type Out = String;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> String {
            match self.0 { 0 => format!("{:?}", p.parse::<Mmap>().unwrap()), 1 => format!("{:?}", p.parse::<Comm>().unwrap()), 2 => format!("{:?}", p.parse::<CGroup>().unwrap()), _ => format!("{:?}", p.parse::<KSymbol>().unwrap()) }
        }
    }
    let buf = Buf::new(&w.v, 0);
    let s = with_parser(buf.get(), &SrcSpec::Slice, &cfg, End::Little, &mut J(k)).0;
    let q = s.find(key).and_then(|i| s[i + key.len()..].strip_suffix(" }"));
    match q.and_then(unquote) { Some(x) => same!(hex(&b), hex(&x), "bytes recovered from {s}"), None => bail!("not a quoted byte string: {s}") }
    // build id
    let n = r.us(21);
    let id = r.bytes(20);
    let mut w = gen::W::new(false);
    w.r(r, &[4, 4, 8, 8, 8]);
    w.v.extend([n as u8, 0, 0, 0]);
    w.v.extend(&id);
    w.r(r, &[4, 4]);
    w.v.push(b'x');
    set(&w.v, 0, &SrcSpec::Slice, &cfg, End::Little, "Debug of a build id");
    let mut rec = gen::W::new(false);
    rec.u32(10);
    rec.u16(0x4000);
    rec.u16(8 + w.v.len() as u64);
    rec.v.extend(w.v);
    struct D;
    impl Job for D { type Out = String; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> String { format!("{:?}", p.parse::<Record>().unwrap()) } }
    let buf = Buf::new(&rec.v, 0);
    let s = with_parser(buf.get(), &SrcSpec::Slice, &cfg, End::Little, &mut D).0;
    let got: String = s.split("build_id: ").nth(1).unwrap_or("?").chars().take_while(|c| *c != ',').collect();
    same!(hex(&id[..n]), got.to_lowercase(), "build id in {s}");
    // errors
    let m = ["", "boom", "a: b", "error\nline"][r.us(4)];
    #[derive(Debug)]
    struct M(&'static str);
    impl std::fmt::Display for M { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for M {}
    note(format!("Display of errors with message {m:?}"));
    same!(m.to_string(), ParseError::new(M(m)).to_string(), "external error");
    let eof = ParseError::eof().to_string();
    if eof.is_empty() || eof.ends_with(": ") { bail!("end-of-data error displays as {eof:?}"); }
    let io = std::io::Error::new(std::io::ErrorKind::UnexpectedEof, M(m));
    let want = format!("{eof}: {io}");
    same!(want, ParseError::from(io).to_string(), "end-of-data error with a source");
    // an error of each other kind, with its own message
    struct Er(u8);
    impl Job for Er {
        type Out = ParseError;
        fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> ParseError {
            match self.0 { 0 => p.parse::<ReadGroup>().err().unwrap(), 1 => p.parse_metadata_with_header(perf_event_header { type_: 3, misc: 0, size: 3 }).err().unwrap(), _ => p.parse::<perf_event_attr>().err().unwrap() }
        }
    }
    for (k, desc) in [(0u8, "config"), (1, "record"), (2, "data")] {
        let mut d = vec![0u8; 200];
        d[4] = 200;
        d[199] = 1;
        let e = with_parser(&d, &SrcSpec::Slice, &cfg, End::Little, &mut Er(k)).0;
        let (s, src) = (e.to_string(), match e.source() { Some(s) => s.to_string(), None => bail!("no source") });
        let pre = s.strip_suffix(&src).and_then(|p| p.strip_suffix(": "));
        match pre { Some(p) if p.contains(desc) && !p.contains(": ") => {} _ => bail!("{} error displays as {s:?} with source {src:?}", kind(&e)) }
    }
    st.hit(&b);
    Ok(())
}
// ------------------------------------------------------------------ known findings
pub fn known() {
    // KF1: two u64 at an odd address in native byte order
    let data: Vec<u8> = (0..40).collect();
    let b = Buf::new(&data, 1);
    let e = if cfg!(target_endian = "big") { End::Big } else { End::Little };
    let range = (0, 0);
    let (g, n) = with_parser(b.get(), &SrcSpec::Slice, &Cfg::default(), e, &mut SliceJob { k: 3, n: 2, skip: 0, how: 0, range });
    if g == SliceGot::None && n != 0 { println!("KF1 C16 parse_slice_direct::<u64>(2) on borrowed native-endian data at an odd address returned None after consuming {n} bytes"); }
    // KF2: a u32 from two one-byte chunks
    let b = Buf::new(&[1, 2], 0);
    let (_, n) = with_parser(b.get(), &SrcSpec::Chunks { cuts: vec![1, 2], tmp: vec![false, false], hint: true }, &Cfg::default(), e, &mut OpsJob { ops: &[Op::U32], config_same: true });
    if n != 0 { println!("KF2 C20 Parser::parse of a u32 from two one-byte chunks failed after consuming {n} bytes, though its documentation says a failed parse leaves the parser unmodified"); }
}
