//! Shared machinery: random numbers, an allocator that watches requests, data sources, configurations.
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::BufReader;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::*};

// ------------------------------------------------------------------ allocator
/// Poisons fresh and freed memory, keeps a red zone on both sides of every block, and records requests.
pub struct Alloc;
// per thread: the watchdog's own allocations are none of a case's
thread_local! {
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
    pub static MAXREQ: Cell<usize> = const { Cell::new(0) };
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
const RZ: usize = 32;
const LIMIT: usize = 256 << 20;
const MAGIC: u8 = 0xB7;
fn pad(l: Layout) -> usize { RZ.max(l.align()) }
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.get() { MAXREQ.set(MAXREQ.get().max(l.size())); }
        if l.size() > LIMIT { return std::ptr::null_mut(); }
        let p = pad(l);
        let r = System.alloc(Layout::from_size_align_unchecked(l.size() + p + RZ, l.align()));
        if r.is_null() { return r; }
        std::ptr::write_bytes(r, MAGIC, p);
        std::ptr::write_bytes(r.add(p), 0xA5, l.size().min(1 << 16));
        std::ptr::write_bytes(r.add(p + l.size()), MAGIC, RZ);
        LIVE.set(LIVE.get() + l.size() as i64);
        r.add(p)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = pad(l);
        let r = q.sub(p);
        for i in 0..p { if *r.add(i) != MAGIC { CORRUPT.fetch_add(1, Relaxed); break; } }
        for i in 0..RZ { if *q.add(l.size() + i) != MAGIC { CORRUPT.fetch_add(1, Relaxed); break; } }
        std::ptr::write_bytes(r, 0xDD, p);
        std::ptr::write_bytes(q, 0xDD, l.size().min(1 << 16));
        LIVE.set(LIVE.get() - l.size() as i64);
        System.dealloc(r, Layout::from_size_align_unchecked(l.size() + p + RZ, l.align()))
    }
}
/// Runs `f` and returns the largest single request made to the allocator meanwhile.
pub fn max_alloc<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAXREQ.set(0);
    ARMED.set(true);
    let r = f();
    ARMED.set(false);
    (r, MAXREQ.get())
}

// ------------------------------------------------------------------ random
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.us(s.len())] }
    /// A word that is interesting more often than a uniform one.
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(3),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.below(256),
            5 => !(1u64 << self.below(64)),
            _ => self.u64(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let z = self.below(4);
        (0..n).map(|_| if z == 0 && self.p(1, 2) { 0 } else { self.u64() as u8 }).collect()
    }
}

// ------------------------------------------------------------------ aligned data
#[derive(Clone)]
pub struct Buf { store: Vec<u64>, off: usize, len: usize }
impl Buf {
    pub fn new(b: &[u8], off: usize) -> Self {
        let mut store = vec![0xC7C7C7C7C7C7C7C7u64; (off + b.len() + 7) / 8];
        let p = store.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len()) };
        Buf { store, off, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.store.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

// ------------------------------------------------------------------ endianness
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum End { Little, Big, DynL, DynB, Native }
pub const ENDS: [End; 5] = [End::Little, End::Big, End::DynL, End::DynB, End::Native];
impl End {
    pub fn be(self) -> bool {
        match self { End::Little | End::DynL => false, End::Big | End::DynB => true, End::Native => cfg!(target_endian = "big") }
    }
    pub fn native(self) -> bool { self.be() == cfg!(target_endian = "big") }
}

// ------------------------------------------------------------------ configuration
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg { pub st: u64, pub rf: u64, pub all: bool, pub hw: bool, pub ru: u64, pub ri: u64 }
impl Cfg {
    pub fn attr(&self) -> perf_event_attr {
        let mut a = perf_event_attr::default();
        a.sample_type = self.st;
        a.read_format = self.rf;
        a.set_sample_id_all(self.all as _);
        if self.hw { a.branch_sample_type = 1 << 17; }
        a.sample_regs_user = self.ru;
        a.sample_regs_intr = self.ri;
        a
    }
}

// ------------------------------------------------------------------ sources
#[derive(Debug)]
pub struct Fault(pub u64);
impl std::fmt::Display for Fault { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "fault {}", self.0) } }
impl std::error::Error for Fault {}

#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind { Custom(u64), Boxed(u64), Io(u64), IoEof, Eof }
#[derive(Clone, Debug)]
pub enum SrcSpec {
    /// the slice itself
    Slice,
    /// chunk ends, which chunks are temporary, whether remaining_hint answers
    Chunks { cuts: Vec<usize>, tmp: Vec<bool>, hint: bool },
    /// BufReader with this capacity over a reader returning at most `step` bytes
    Reader { cap: usize, step: usize },
    /// chunks as above, failing at a position
    Faulty { cuts: Vec<usize>, tmp: Vec<bool>, hint: bool, at: usize, kind: FaultKind },
    /// reader failing at a position
    FaultyReader { cap: usize, step: usize, at: usize, kind: FaultKind },
}
impl SrcSpec {
    pub fn borrows(&self) -> bool {
        match self { SrcSpec::Slice => true, SrcSpec::Chunks { tmp, .. } | SrcSpec::Faulty { tmp, .. } => tmp.iter().any(|t| !t), _ => false }
    }
    pub fn random(r: &mut Rng, len: usize) -> SrcSpec {
        match r.below(8) {
            0 => SrcSpec::Slice,
            1 | 2 => SrcSpec::Reader { cap: *r.pick(&[1, 2, 3, 5, 7, 8, 9, 16, 31, 64, 4096]), step: *r.pick(&[1, 2, 3, 7, 8, 64, 100000]) },
            k => {
                let mut cuts = vec![];
                let mut pos = 0;
                let mode = r.below(4);
                while pos < len {
                    let s = match mode { 0 => 1, 1 => 1 + r.us(4), 2 => 1 + r.us(24), _ => 1 + r.us(len) };
                    pos = (pos + s).min(len);
                    cuts.push(pos);
                }
                let m = r.below(3);
                let tmp = cuts.iter().map(|_| match m { 0 => false, 1 => true, _ => r.p(1, 2) }).collect();
                SrcSpec::Chunks { cuts, tmp, hint: k % 2 == 0 }
            }
        }
    }
}
fn fault(kind: &FaultKind) -> ParseError {
    match kind {
        FaultKind::Custom(i) => ParseError::new(Fault(*i)),
        FaultKind::Boxed(i) => ParseError::from(Box::new(Fault(*i)) as Box<dyn std::error::Error + Send + Sync>),
        FaultKind::Io(i) => ParseError::from(std::io::Error::new(io_kind(*i), Fault(*i))),
        FaultKind::IoEof => ParseError::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Fault(77))),
        FaultKind::Eof => ParseError::eof(),
    }
}
pub fn io_kind(i: u64) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    [Other, PermissionDenied, ConnectionReset, InvalidData, TimedOut, BrokenPipe, WouldBlock, InvalidInput, WriteZero, OutOfMemory][(i % 10) as usize]
}
pub struct Chunks<'a> {
    data: &'a [u8], pos: Rc<Cell<usize>>, cuts: Vec<usize>, tmp: Vec<bool>, hint: bool, buf: Vec<u8>,
    fail: Option<(usize, FaultKind)>, misuse: Rc<RefCell<Option<String>>>,
}
impl<'a> Chunks<'a> {
    fn cur(&self) -> Option<(usize, bool)> {
        let p = self.pos.get();
        let i = self.cuts.partition_point(|c| *c <= p);
        if i == self.cuts.len() { return None; }
        Some((self.cuts[i], self.tmp[i]))
    }
}
unsafe impl<'a> ParseBuf<'a> for Chunks<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> {
        let p = self.pos.get();
        let mut lim = usize::MAX;
        if let Some((at, k)) = &self.fail { if p >= *at { return Err(fault(k)); } lim = *at; }
        match self.cur() {
            None => Err(ParseError::eof()),
            Some((end, false)) => Ok(ParseBufChunk::External(&self.data[p..end.min(lim)])),
            Some((end, true)) => {
                self.buf = self.data[p..end.min(lim)].to_vec();
                Ok(ParseBufChunk::Temporary(&self.buf))
            }
        }
    }
    fn advance(&mut self, n: usize) {
        self.buf.iter_mut().for_each(|b| *b = 0xEE);
        match self.pos.get().checked_add(n) {
            Some(q) if q <= self.data.len() => self.pos.set(q),
            _ => { *self.misuse.borrow_mut() = Some(format!("advance({n}) past the end")); panic!("source advanced past its end"); }
        }
    }
    fn remaining_hint(&self) -> Option<usize> { if self.hint { Some(self.data.len() - self.pos.get()) } else { None } }
}
pub struct Rd<'a> { d: &'a [u8], step: usize, at: usize, fail: Option<(usize, FaultKind)> }
impl std::io::Read for Rd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = self.d.len().min(self.step).min(b.len());
        if let Some((f, k)) = &self.fail {
            if self.at >= *f {
                return Err(match k {
                    FaultKind::Io(i) => std::io::Error::new(io_kind(*i), Fault(*i)),
                    _ => std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Fault(77)),
                });
            }
            n = n.min(*f - self.at);
        }
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        self.at += n;
        Ok(n)
    }
}
pub struct Reader<'a> { b: BufReader<Rd<'a>>, pos: Rc<Cell<usize>> }
unsafe impl<'p, 'a> ParseBuf<'p> for Reader<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> { ParseBuf::chunk(&mut self.b) }
    fn advance(&mut self, n: usize) { self.pos.set(self.pos.get() + n); ParseBuf::advance(&mut self.b, n) }
    fn remaining_hint(&self) -> Option<usize> { ParseBuf::remaining_hint(&self.b) }
}
pub struct SliceSrc<'a> { d: &'a [u8], pos: Rc<Cell<usize>> }
unsafe impl<'a> ParseBuf<'a> for SliceSrc<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> { ParseBuf::chunk(&mut self.d) }
    fn advance(&mut self, n: usize) { self.pos.set(self.pos.get() + n); ParseBuf::advance(&mut self.d, n) }
    fn remaining_hint(&self) -> Option<usize> { ParseBuf::remaining_hint(&self.d) }
}

/// A computation over any parser.
pub trait Job { type Out; fn run<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>) -> Self::Out; }
pub fn with_parser<J: Job>(data: &[u8], src: &SrcSpec, cfg: &Cfg, e: End, j: &mut J) -> (J::Out, usize) {
    with_attr(data, src, cfg.attr(), e, j)
}
pub fn with_attr<J: Job>(data: &[u8], src: &SrcSpec, attr: perf_event_attr, e: End, j: &mut J) -> (J::Out, usize) {
    let pos = Rc::new(Cell::new(0));
    let base: ParseConfig<Native> = ParseConfig::from(attr);
    macro_rules! ends { ($b:expr) => { match e {
        End::Little => j.run(&mut Parser::new($b, ParseConfig::<Little>::from(attr))),
        End::Big => j.run(&mut Parser::new($b, ParseConfig::<Big>::from(attr))),
        End::DynL => j.run(&mut Parser::new($b, base.with_endian(Dynamic::Little))),
        End::DynB => j.run(&mut Parser::new($b, base.with_endian(Dynamic::Big))),
        End::Native => j.run(&mut Parser::new($b, base)),
    } } }
    let out = match src {
        SrcSpec::Slice => ends!(SliceSrc { d: data, pos: pos.clone() }),
        SrcSpec::Chunks { cuts, tmp, hint } => ends!(chunks(data, &pos, cuts, tmp, *hint, None)),
        SrcSpec::Faulty { cuts, tmp, hint, at, kind } => ends!(chunks(data, &pos, cuts, tmp, *hint, Some((*at, kind.clone())))),
        SrcSpec::Reader { cap, step } => ends!(reader(data, &pos, *cap, *step, None)),
        SrcSpec::FaultyReader { cap, step, at, kind } => ends!(reader(data, &pos, *cap, *step, Some((*at, kind.clone())))),
    };
    (out, pos.get())
}
fn chunks<'a>(data: &'a [u8], pos: &Rc<Cell<usize>>, cuts: &[usize], tmp: &[bool], hint: bool, fail: Option<(usize, FaultKind)>) -> Chunks<'a> {
    Chunks { data, pos: pos.clone(), cuts: cuts.to_vec(), tmp: tmp.to_vec(), hint, buf: vec![], fail, misuse: Default::default() }
}
fn reader<'a>(data: &'a [u8], pos: &Rc<Cell<usize>>, cap: usize, step: usize, fail: Option<(usize, FaultKind)>) -> Reader<'a> {
    Reader { b: BufReader::with_capacity(cap, Rd { d: data, step, at: 0, fail }), pos: pos.clone() }
}

// ------------------------------------------------------------------ panics
thread_local!(pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.set(false);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn kind(e: &ParseError) -> &'static str {
    match e.kind() {
        ErrorKind::Eof => "Eof", ErrorKind::InvalidRecord => "InvalidRecord", ErrorKind::UnsupportedConfig => "UnsupportedConfig",
        ErrorKind::UnsupportedData => "UnsupportedData", ErrorKind::External => "External", _ => "?",
    }
}
