"""Which functions state which property.

DIRECT: function key (full regular expression) -> properties its contract states, i.e. the properties a failed
postcondition of that function breaks. Panic freedom, bounds, termination and the preconditions of callees are
C01 for every function, whatever is listed here.
"""
import re

PRIM = "C02 C19 C20"
DIRECT = [
    # config.rs, flags.rs
    (r"ConfigFlags::.*", "C13"), (r"ParseConfig::(?!with_endian|endian|with_misc|misc).*", "C13"),
    (r"ParseConfig::(with_misc|misc)", "C13 C09 C07"),
    (r"ParseConfig::(with_endian|endian)", "C13 C04"), (r"(Raw)?ParseConfig as From.*", "C13"),
    (r"ReadFormat::element_len", "C10"),
    # endian.rs
    (r"(Endian|Native|Little|Big|Dynamic)( as Endian)?::.*", "C04"), (r"Parser::endian", "C04"),
    # error.rs
    (r"ParseError(?! as Display).*", "C19"), (r"ParseError as Display::fmt|(ByteStr|HexStr|Comm|CGroup|KSymbol|Mmap|Mmap2|TextPoke|ReadValue|GroupEntry|DataSource|Sample|SampleId|sample_impl::Sample|sample_id::SampleId) as Debug::fmt", "C22"),
    # parse.rs
    (r"Parser::(new|config)", "C20"), (r"Parser::split_at", "C03 C02 C20"),
    (r"Parser::safe_capacity_bound", "C15"),
    (r"Parser::(parse_bytes|parse_bytes_slow|parse_rest)", PRIM + " C15"),
    (r"Parser::(parse_bytes_direct|parse_bytes_ignored|parse_to_slice|parse_array_slow|parse_array|parse|parse_with|parse_if|parse_if_with)", PRIM),
    (r"Parser::parse_padded", PRIM + " C05"), (r"Parser::parse_rest_trim_nul", PRIM + " C08"),
    (r"Parser::parse_u(8|16|32|64)", PRIM + " C04"), (r"u(8|16|32|64) as Parse::parse", PRIM + " C04"),
    (r"\[u8;N\] as Parse::parse", PRIM), (r"perf_event_header as Parse::parse", "C03 C02 C19"),
    (r"Parser::(parse_slice|parse_slice_direct)", "C16 C02 C19 C20"), (r"Parser::parse_repeated", "C16 C15 " + PRIM),
    (r"Parser::parse_metadata.*", "C03 C06 C02 C09 C19"),
    (r"Parser::parse_record.*", "C03 C12 C02 C09 C19"), (r"Parse::parse", "C20"),
    # parsebuf.rs
    (r"(ParseBuf|&\[u8\] as ParseBuf|ParseBufCursor.*|TrackingParseBuf.*|ParseBufChunk.*)(::.*)?", "C02 C03 C20"),
    (r".*ParseBuf(Cursor)?( as ParseBuf)?::remaining_hint", "C15"), (r"ParseBufCursor::.*", "C15"),
    (r"ParseBufCursor as ParseBuf::advance", "C15"), (r"&\[u8\] as ParseBuf::.*", "C15 C19"),
    (r"BufReader as ParseBuf::.*", "C02 C15 C19"),
    # util
    (r"(Cow as )?CowSliceExt::.*", "C08 C05 C02"), (r"round_up_mod", "C08"),
    # records
    (r"(Exit|Lost|LostSamples|Throttle|ITraceStart|Aux|AuxFlags|AuxOutputHwId|BpfEvent|BpfEventType|SwitchCpuWide)( as Parse)?::(parse|new|pid|tid)", "C07 C02 C19"),
    (r"AuxPmuFormatType::new|AuxFlags::pmu_format_type", "C18 C07"),
    (r"(Mmap|Comm|CGroup|KSymbol|KSymbolType|KSymbolFlags|TextPoke|Namespaces|NamespaceEntry)( as Parse)?::(parse|new|network|uts|ipc|pid|user|cgroup)", "C08 C02 C19"),
    (r"(Mmap|Mmap2|Comm)::(filename|comm)_os|CGroup::path_os", "C08"),
    (r"(Mmap2|MmapDetail)( as Parse)?::(parse|maj|min|ino|ino_generation|build_id)", "C09 C02 C19"),
    (r".*::(into_owned|to_owned|into_mmap|to_mmap)|Mmap as From<Mmap2>::from|Record as From<.*", "C21"),
    (r"(Read|ReadValue|ReadGroup) as Parse::parse", "C10 C02 C19"),
    (r"(ReadValue|ReadGroup|GroupEntry)::(value|time_enabled|time_running|id|lost|new)", "C10 C11"),
    (r"ReadValue::from_group_and_entry|ReadGroup as From<ReadValue>::from|ReadValue as TryFrom<ReadGroup>::try_from|ReadGroup::(len|is_empty|get|get_by_id|entries)|GroupIter.*", "C11"),
    (r"Sample as Parse::parse|Registers::.*|SampleRegsAbi.*", "C05 C02 C19"),
    (r"(BranchEntry|DataSource|Txn) as Parse::parse", "C05 C18 C02 C19"),
    (r"(BranchEntry|DataSource|Txn|MemSnoop|MemLevelNum|BranchType)::.*", "C18"),
    (r"sample_impl::Sample(?! as Debug).*|Sample::.*", "C17"), (r"sample_id::SampleId(?! as Debug).*|SampleId::(pid|tid|time|id|stream_id|cpu|from_sample)", "C17 C06"),
    (r"(ReadGroup|Registers) as Clone::clone|SampleId as (Default|From<&?Sample>)::.*", "C17"),
    (r"SampleId::estimate_len|SampleId as Parse::parse", "C06 C02 C19"),
    (r"RecordMetadata::.*", "C06 C12"), (r"(RecordVisitor as )?Visitor::.*", "C12"),
    (r"Record(::parse_with_header| as Parse::parse)", "C12 C03 C09"),
    # impls
    (r"perf_event_attr as Parse::parse", "C14 C02 C19"),
]
_C = [(re.compile(r), p.split()) for r, p in DIRECT]
ALL = ["C%02d" % i for i in range(1, 23)]


def direct(key):
    k = key.replace(" (provided body)", "").split(" (part ")[0]
    out = set()
    for r, p in _C:
        if r.fullmatch(k):
            out |= set(p)
    return out
