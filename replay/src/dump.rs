//! The same textual form as refdec, made from the real types through their public interface only.
use crate::base::*;
use crate::refdec;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::borrow::Cow;

pub trait Dump { fn dump(&self) -> String; }
fn o<T: Into<u64>>(x: Option<T>) -> String { match x { Some(v) => format!("{:#x}", v.into()), None => "-".into() } }
/// a name, and its OS string view if that differs
fn name(b: &[u8], os: &std::ffi::OsStr) -> String {
    let os = std::os::unix::ffi::OsStrExt::as_bytes(os);
    if os == b { hex(b) } else { format!("{} (as OS string: {})", hex(b), hex(os)) }
}
impl Dump for Mmap<'_> { fn dump(&self) -> String { format!("Mmap {:x} {:x} {:x} {:x} {:x} {}", self.pid, self.tid, self.addr, self.len, self.pgoff, name(&self.filename, self.filename_os())) } }
impl Dump for Lost { fn dump(&self) -> String { format!("Lost {:x} {:x}", self.id, self.lost) } }
impl Dump for Comm<'_> { fn dump(&self) -> String { format!("Comm {:x} {:x} {}", self.pid, self.tid, name(&self.comm, self.comm_os())) } }
impl Dump for Exit { fn dump(&self) -> String { format!("Exit pid={:x} ppid={:x} tid={:x} ptid={:x} time={:x}", self.pid, self.ppid, self.tid, self.ptid, self.time) } }
impl Dump for Throttle { fn dump(&self) -> String { format!("Throttle {:x} {:x} {:x}", self.time, self.id, self.stream_id) } }
impl Dump for Read { fn dump(&self) -> String { format!("Read {:x} {:x} {}", self.pid, self.tid, self.values.dump()) } }
impl Dump for ReadValue {
    fn dump(&self) -> String {
        format!("value {:#x} te={} tr={} id={} lost={}", self.value(), o(self.time_enabled()), o(self.time_running()), o(self.id()), o(self.lost()))
    }
}
pub fn entry(e: &GroupEntry) -> String { format!("[{:#x} {} {}]", e.value(), o(e.id()), o(e.lost())) }
impl Dump for ReadGroup<'_> {
    fn dump(&self) -> String {
        let mut s = format!("group te={} tr={} n={}", o(self.time_enabled()), o(self.time_running()), self.len());
        for e in self.entries() { s += " "; s += &entry(&e); }
        s
    }
}
impl Dump for BranchEntry {
    fn dump(&self) -> String {
        format!("[{:x} {:x} {}{}{}{} {:x} {:x}]", self.from(), self.to(), self.mispred() as u8, self.predicted() as u8, self.in_tx() as u8, self.abort() as u8, self.cycles(), branch_ty(self.ty()))
    }
}
pub fn branch_ty(t: BranchType) -> u8 { t.0 }
impl Dump for DataSource {
    fn dump(&self) -> String {
        format!("op={:x} lvl={:x} snoop={:x} lock={:x} dtlb={:x} num={:x} rem={} blk={:x} hops={:x}", self.mem_op().bits(), self.mem_lvl().bits(),
            self.mem_snoop().bits(), self.mem_lock().bits(), self.mem_dtlb().bits(), self.mem_lvl_num().0, self.mem_remote(), self.mem_blk().bits(), self.mem_hops())
    }
}
impl Dump for Registers<'_> { fn dump(&self) -> String { format!("abi={:x} mask={:x} {:x?}", self.abi.0, self.mask, &self.regs[..]) } }
pub fn sample_fields(s: &Sample) -> Vec<Option<String>> {
    fn x(v: Option<u64>) -> Option<String> { v.map(|v| format!("{v:#x}")) }
    let y = |v: Option<u32>| x(v.map(|v| v as u64));
    vec![x(s.ip()), y(s.pid()), y(s.tid()), x(s.time()), x(s.addr()), x(s.id()), x(s.stream_id()), y(s.cpu()), x(s.period()),
        s.values().map(|v| v.dump()), s.callchain().map(|v| format!("{v:x?}")), s.raw().map(hex), x(s.lbr_hw_index()),
        s.lbr().map(|v| v.iter().map(|b| b.dump()).collect()), s.regs_user().map(|v| v.dump()), s.stack_user().map(hex), x(s.weight()),
        s.data_src().map(|v| v.dump()), x(s.transaction().map(|t| t.bits())), s.regs_intr().map(|v| v.dump()), x(s.phys_addr()), s.aux().map(hex),
        x(s.cgroup()), x(s.data_page_size()), x(s.code_page_size())]
}
impl Dump for Sample<'_> { fn dump(&self) -> String { refdec::sample_str(&sample_fields(self)) } }
impl Dump for Mmap2<'_> {
    fn dump(&self) -> String {
        fn x<T: Into<u64>>(v: Option<T>) -> String { v.map(|v| format!("{:x}", v.into())).unwrap_or("-".into()) }
        let b = match self.build_id() { Some(b) => format!("build={}", hex(b)), None => "-".into() };
        format!("Mmap2 {:x} {:x} {:x} {:x} {:x} {} {} {} {} {b} prot={:x} flags={:x} {}", self.pid, self.tid, self.addr, self.len, self.pgoff,
            x(self.maj()), x(self.min()), x(self.ino()), x(self.ino_generation()), self.prot, self.flags, name(&self.filename, self.filename_os()))
    }
}
impl Dump for Aux { fn dump(&self) -> String { format!("Aux {:x} {:x} {:x}", self.aux_offset, self.aux_size, self.flags.bits()) } }
impl Dump for ITraceStart { fn dump(&self) -> String { format!("ITrace {:x} {:x}", self.pid, self.tid) } }
impl Dump for LostSamples { fn dump(&self) -> String { format!("LostSamples {:x}", self.lost) } }
impl Dump for SwitchCpuWide {
    fn dump(&self) -> String {
        let s = match self { SwitchCpuWide::Out { .. } => "out", SwitchCpuWide::In { .. } => "in" };
        format!("SwitchCpuWide {s} {:x} {:x}", self.pid(), self.tid())
    }
}
impl Dump for Namespaces<'_> {
    fn dump(&self) -> String {
        let w: Vec<u64> = self.namespaces.iter().flat_map(|e| [e.dev, e.inode]).collect();
        let mut s = format!("Ns {:x} {:x} {w:x?}", self.pid, self.tid);
        for (n, e) in [("net", self.network()), ("uts", self.uts()), ("ipc", self.ipc()), ("pid", self.pid()), ("user", self.user()), ("cgroup", self.cgroup())] {
            s += &match e { Some(e) => format!(" {n}={:x}:{:x}", e.dev, e.inode), None => format!(" {n}=-") };
        }
        s
    }
}
impl Dump for KSymbol<'_> { fn dump(&self) -> String { format!("KSymbol {:x} {:x} {:x} {:x} {}", self.addr, self.len, self.ksym_type.0, self.flags.bits(), hex(&self.name)) } }
impl Dump for BpfEvent { fn dump(&self) -> String { format!("Bpf {:x} {:x} {:x} {}", self.ty.0, self.flags, self.id, hex(&self.tag)) } }
impl Dump for CGroup<'_> { fn dump(&self) -> String { format!("CGroup {:x} {}", self.id, name(&self.path, self.path_os().as_os_str())) } }
impl Dump for TextPoke<'_> { fn dump(&self) -> String { format!("TextPoke {:x} {} {}", self.addr, hex(&self.old_bytes), hex(&self.new_bytes)) } }
impl Dump for AuxOutputHwId { fn dump(&self) -> String { format!("HwId {:x}", self.hw_id) } }
impl Dump for Cow<'_, [u8]> { fn dump(&self) -> String { format!("Unknown {}", hex(self)) } }
impl Dump for SampleId {
    fn dump(&self) -> String {
        format!("pid={} tid={} time={} id={} stream={} cpu={}", o(self.pid()), o(self.tid()), o(self.time()), o(self.id()), o(self.stream_id()), o(self.cpu()))
    }
}
impl Dump for perf_event_attr {
    fn dump(&self) -> String {
        let bits = unsafe { std::mem::transmute_copy::<_, u64>(&self._bitfield_1) };
        let f = unsafe { [self.type_ as u64, self.size as u64, self.config, self.__bindgen_anon_1.sample_period, self.sample_type, self.read_format, bits,
            self.__bindgen_anon_2.wakeup_events as u64, self.bp_type as u64, self.__bindgen_anon_3.config1, self.__bindgen_anon_4.config2, self.branch_sample_type,
            self.sample_regs_user, self.sample_stack_user as u64, self.clockid as u32 as u64, self.sample_regs_intr, self.aux_watermark as u64,
            self.sample_max_stack as u64, 0, self.aux_sample_size as u64, 0, self.sig_data, self.config3] };
        refdec::attr_str(&f)
    }
}
impl Dump for Record<'_> {
    fn dump(&self) -> String {
        let (n, s) = match self {
            Record::Mmap(r) => ("mmap", r.dump()), Record::Lost(r) => ("lost", r.dump()), Record::Comm(r) => ("comm", r.dump()), Record::Exit(r) => ("exit", r.dump()),
            Record::Throttle(r) => ("throttle", r.dump()), Record::Unthrottle(r) => ("unthrottle", r.dump()), Record::Fork(r) => ("fork", r.dump()),
            Record::Read(r) => ("read", r.dump()), Record::Sample(r) => ("sample", r.dump()), Record::Mmap2(r) => ("mmap2", r.dump()), Record::Aux(r) => ("aux", r.dump()),
            Record::ITraceStart(r) => ("itrace_start", r.dump()), Record::LostSamples(r) => ("lost_samples", r.dump()), Record::Switch => ("switch", "Switch".into()),
            Record::SwitchCpuWide(r) => ("switch_cpu_wide", r.dump()), Record::Namespaces(r) => ("namespaces", r.dump()), Record::KSymbol(r) => ("ksymbol", r.dump()),
            Record::BpfEvent(r) => ("bpf_event", r.dump()), Record::CGroup(r) => ("cgroup", r.dump()), Record::TextPoke(r) => ("text_poke", r.dump()),
            Record::AuxOutputHwId(r) => ("aux_output_hw_id", r.dump()), Record::Unknown { data, .. } => ("unknown", data.dump()),
            _ => ("other", String::new()),
        };
        format!("{n}: {s}")
    }
}
/// What a visitor saw: method, record, type, misc, sample_id.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen { pub method: &'static str, pub rec: String, pub ty: u32, pub misc: u16, pub sid: String }
fn seen(method: &'static str, rec: String, m: RecordMetadata) -> Seen { Seen { method, rec, ty: m.ty(), misc: m.misc(), sid: m.sample_id().dump() } }
/// Overrides every method.
pub struct All;
macro_rules! visits { ($($m:ident($t:ty) $n:literal;)*) => { $( fn $m(self, r: $t, m: RecordMetadata) -> Seen { seen($n, r.dump(), m) } )* } }
impl<'a> Visitor<'a> for All {
    type Output = Seen;
    fn visit_unimplemented(self, m: RecordMetadata) -> Seen { seen("unimplemented", String::new(), m) }
    fn visit_switch(self, m: RecordMetadata) -> Seen { seen("switch", "Switch".into(), m) }
    visits! {
        visit_mmap(Mmap<'a>) "mmap"; visit_lost(Lost) "lost"; visit_comm(Comm<'a>) "comm"; visit_exit(Exit) "exit"; visit_throttle(Throttle) "throttle";
        visit_unthrottle(Throttle) "unthrottle"; visit_fork(Fork) "fork"; visit_read(Read) "read"; visit_sample(Sample<'a>) "sample"; visit_mmap2(Mmap2<'a>) "mmap2";
        visit_aux(Aux) "aux"; visit_itrace_start(ITraceStart) "itrace_start"; visit_lost_samples(LostSamples) "lost_samples";
        visit_switch_cpu_wide(SwitchCpuWide) "switch_cpu_wide"; visit_namespaces(Namespaces<'a>) "namespaces"; visit_ksymbol(KSymbol<'a>) "ksymbol";
        visit_bpf_event(BpfEvent) "bpf_event"; visit_cgroup(CGroup<'a>) "cgroup"; visit_text_poke(TextPoke<'a>) "text_poke";
        visit_aux_output_hw_id(AuxOutputHwId) "aux_output_hw_id"; visit_unknown(Cow<'a, [u8]>) "unknown";
    }
}
/// Overrides nothing.
pub struct Bare;
impl<'a> Visitor<'a> for Bare {
    type Output = Seen;
    fn visit_unimplemented(self, m: RecordMetadata) -> Seen { seen("unimplemented", String::new(), m) }
}
/// Overrides visit_mmap only: MMAP2 records arrive converted.
pub struct MmapOnly;
impl<'a> Visitor<'a> for MmapOnly {
    type Output = Seen;
    fn visit_unimplemented(self, m: RecordMetadata) -> Seen { seen("unimplemented", String::new(), m) }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Seen { seen("mmap", r.dump(), m) }
}
pub type Got = Result<String, String>;
pub fn got<T: Dump>(r: ParseResult<T>) -> Got { match r { Ok(v) => Ok(v.dump()), Err(e) => Err(kind(&e).into()) } }
/// Parses a body of type `ty` from the parser.
pub fn typed<'p, B: ParseBuf<'p>, E: endian::Endian>(p: &mut Parser<B, E>, ty: u32) -> Got {
    match ty {
        1 => got(p.parse::<Mmap>()), 2 => got(p.parse::<Lost>()), 3 => got(p.parse::<Comm>()), 4 => got(p.parse::<Exit>()), 5 | 6 => got(p.parse::<Throttle>()),
        7 => got(p.parse::<Fork>()), 8 => got(p.parse::<Read>()), 9 => got(p.parse::<Sample>()), 10 => got(p.parse::<Mmap2>()), 11 => got(p.parse::<Aux>()),
        12 => got(p.parse::<ITraceStart>()), 13 => got(p.parse::<LostSamples>()), 14 => Ok("Switch".into()), 15 => got(p.parse::<SwitchCpuWide>()),
        16 => got(p.parse::<Namespaces>()), 17 => got(p.parse::<KSymbol>()), 18 => got(p.parse::<BpfEvent>()), 19 => got(p.parse::<CGroup>()),
        20 => got(p.parse::<TextPoke>()), 21 => got(p.parse::<AuxOutputHwId>()), _ => got(p.parse_rest()),
    }
}
