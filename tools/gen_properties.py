#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Parsing never panics, hangs or touches memory it was not given",
 "For every byte sequence, every parse configuration, every endianness and every conforming data source, every public parsing entry point terminates with either a value or an error: it never panics, never overflows or indexes out of bounds, never loops forever, and never reads or writes memory outside the source data and its own buffers. This includes lengths, counts and sizes read from the data itself, however large or inconsistent they are.",
 ["inputs", "configurations", "histories"], "all byte strings x all perf_event_attr-derived configs x Little/Big/Dynamic/Native x all sources obeying the ParseBuf contract, for every record type, primitive and helper",
 "The tests parse about twenty well-formed records; hostile lengths, truncated records and unusual chunk boundaries are infinite families that no test enumerates.",
 ["src/parse.rs", "src/parsebuf.rs", "src/records/", "src/impls/perf_event_attr.rs", "src/util/cow.rs"],
 [("checked arithmetic on lengths, bounded copies, ParseBuf contract", "src/parse.rs Parser::*"), ("cursor bookkeeping", "src/parsebuf.rs ParseBufCursor")],
 [("ParseBufCursor.offset/len/chunks", "position inside the remaining chunk list", "src/parsebuf.rs")],
 ["panics, aborts, non-termination, Miri/ASan reports of any public parse call"])

prop("C02", "The result does not depend on how the source splits the data",
 "Parsing the same bytes with the same configuration gives the same value, or an error of the same kind, whatever way the data source hands the bytes out: one borrowed slice, many small borrowed chunks, temporary chunks owned by the source, or a buffered reader with any buffer size. After a success the same number of bytes has been consumed from the source.",
 ["inputs", "histories", "configurations"], "all byte strings x all partitions of them into non-empty chunks x borrowed/temporary per chunk x all configs and record types",
 "Chunkings are exponential in the length of the data; the tests use one contiguous slice almost everywhere and two hand-written splits that assert nothing about the values.",
 ["src/parse.rs", "src/parsebuf.rs", "src/util/cow.rs"],
 [("direct, slow and to-slice copy paths", "src/parse.rs parse_bytes*, parse_array*, parse_rest"), ("cursor over split chunks, contiguous fast path", "src/parsebuf.rs ParseBufCursor; src/parse.rs parse_record_with_header")],
 observe=["value/error returned by Parser methods, remaining bytes of the source"])

prop("C03", "Records are framed exactly by their header",
 "Successfully parsing a record (through Record, a Visitor, or the metadata API) consumes exactly the number of bytes given by its header's size field, so that the next record starts right after it; nothing of the record's value is taken from bytes outside that frame, and bytes of the frame that the record type does not use are skipped. A header whose size is smaller than the header itself is rejected as an invalid record, and a frame that extends past the end of the data fails with an end-of-data error.",
 ["inputs", "configurations", "histories"], "all byte streams, all header sizes, all record types (known and unknown), all configs, with the header parsed in-line or supplied by the caller",
 "Tests parse single records whose size field is right; they do not cover streams, over-long frames, wrong sizes or fields reaching across the frame end.",
 ["src/parse.rs", "src/parsebuf.rs", "src/visitor.rs"],
 [("split_at over a length-limited cursor", "src/parse.rs Parser::split_at, parse_metadata_with_header_impl"), ("ParseBufCursor::new", "src/parsebuf.rs")],
 observe=["bytes left in the source after parse_record / Record::parse / parse_metadata"])

prop("C04", "Scalars are decoded in the configured byte order",
 "Every 16, 32 and 64 bit integer read by the parser equals the value of its bytes in the byte order of the configured endianness: Little always little endian, Big always big endian, Native the host's order, and Dynamic whichever it was told; single bytes are unaffected. An endianness reports itself as native only if it really is the host's byte order.",
 ["inputs", "configurations"], "all byte values, all four endian types (both Dynamic states), all integer widths, in every record field",
 "Tests use a handful of constants, mostly little endian on a little-endian host, where a wrong conversion in a rarely used width or a Native/Little mix-up is invisible.",
 ["src/endian.rs", "src/parse.rs", "src/config.rs"],
 [("Endian implementations", "src/endian.rs"), ("parse_u8/u16/u32/u64 and the Parse impls of the integers", "src/parse.rs"), ("with_endian", "src/config.rs")],
 observe=["Parser::parse_u*, Endian::convert_*, Endian::is_native"])

prop("C05", "SAMPLE records decode every selected field, in kernel order",
 "For every sample_type, read_format, register mask and branch setting, a SAMPLE record is decoded exactly as the kernel lays it out: the selected fields are read in ABI order, each with its own size, count and padding rules (raw data padded to 8 bytes, user stack cut to its dynamic size, registers only when an ABI is reported, branch hardware index only when configured), and unselected fields are absent. The sample's id comes from the ID field, or from IDENTIFIER when ID is not selected.",
 ["inputs", "configurations"], "all 2^25 combinations of sample_type bits x read formats x register masks x branch_hw_index x all payload bytes and counts x both byte orders",
 "Two sample tests cover 7 of the 25 field bits and none of the variable-length fields; the combinations and the data-dependent lengths are out of reach of tests.",
 ["src/records/sample.rs", "src/parse.rs"],
 [("Sample::parse", "src/records/sample.rs"), ("Registers::parse*, BranchEntry/DataSource/Txn::parse", "src/records/sample.rs"), ("parse_padded, parse_if_with, parse_slice, parse_bytes", "src/parse.rs")],
 observe=["accessors of Sample"])

prop("C06", "The sample_id trailer is located, sized and decoded correctly",
 "When sample_id_all is configured, every record other than MMAP and SAMPLE ends with a sample_id whose size is exactly the sum of its selected fields; it is decoded from the end of the frame in kernel order (TID, TIME, ID, STREAM_ID, CPU, IDENTIFIER, with ID taking precedence over IDENTIFIER) into the record's metadata, and the record body never includes it. When sample_id_all is not set the trailer is empty and the body is the whole frame; a frame too short for the configured trailer is rejected as an invalid record.",
 ["inputs", "configurations"], "all sample_type masks x sample_id_all x all record types x all frame sizes and bytes",
 "No test parses a record with a sample_id trailer.",
 ["src/records/mod.rs", "src/parse.rs", "src/visitor.rs"],
 [("SampleId::parse, SampleId::estimate_len", "src/records/mod.rs"), ("parse_metadata_with_header_impl", "src/parse.rs"), ("RecordMetadata", "src/visitor.rs")],
 observe=["RecordMetadata::sample_id(), body bytes seen by the record"])

prop("C07", "Fixed-layout records decode to the documented fields",
 "EXIT, FORK, LOST, LOST_SAMPLES, THROTTLE, UNTHROTTLE, ITRACE_START, AUX, AUX_OUTPUT_HW_ID, BPF_EVENT and SWITCH_CPU_WIDE records decode every field from its kernel-defined offset and width, for all field values. SWITCH_CPU_WIDE is a switch-out exactly when the switch-out bit of the header's misc field is set, and flag and enum fields keep every bit, including unknown ones.",
 ["inputs", "configurations"], "all field values, both byte orders, all misc values, all sources",
 "One fixed byte string per record type (and none for several of them) cannot tell swapped or truncated fields apart for all values, nor the misc-dependent variants.",
 ["src/records/exit.rs", "src/records/lost.rs", "src/records/lost_samples.rs", "src/records/throttle.rs", "src/records/itrace_start.rs", "src/records/aux_record.rs", "src/records/aux_output_hw_id.rs", "src/records/bpf_event.rs", "src/records/switch_cpu_wide.rs"],
 [("Parse impl of each record", "src/records/*.rs")],
 observe=["public fields and accessors of the records"])

prop("C08", "Variable-length records decode names, paths, bytes and arrays exactly",
 "MMAP, COMM, CGROUP and KSYMBOL decode their fixed fields and then a name that is the rest of the record with its trailing NUL bytes, and only those, removed; the OsStr and Path views of a name hold the same bytes. TEXT_POKE yields exactly old_len old bytes followed by exactly new_len new bytes, with the padding that makes the record a multiple of 8 bytes consumed; NAMESPACES yields exactly the announced number of entries, and each named namespace accessor returns the entry the kernel stores at that namespace's index, or nothing if there is none.",
 ["inputs", "configurations"], "all names (with embedded or only NULs, empty), all lengths and counts, both byte orders, borrowed or copied data",
 "Tests use one short name per record and no TEXT_POKE or NAMESPACES record at all.",
 ["src/records/mmap.rs", "src/records/comm.rs", "src/records/cgroup.rs", "src/records/ksymbol.rs", "src/records/text_poke.rs", "src/records/namespaces.rs", "src/parse.rs", "src/util/cow.rs"],
 [("parse_rest_trim_nul", "src/parse.rs"), ("round_up_mod, CowSliceExt::split_at/truncate", "src/records/text_poke.rs, src/util/cow.rs"), ("Namespaces accessors", "src/records/namespaces.rs")],
 observe=["public fields and accessors of the records"])

prop("C09", "MMAP2 chooses between inode data and build id by the misc field",
 "An MMAP2 record decodes its fields at their kernel offsets, and carries a build id exactly when the build-id bit of the header's misc field is set, through every way of parsing a record; otherwise it carries device and inode numbers. The build id is exactly the announced number of bytes, an announced length above 20 is an invalid record, and the accessors of the variant that is not present return nothing.",
 ["inputs", "configurations"], "all misc values x all build-id lengths 0..=255 x all field values x parse_record, Record and the metadata API",
 "One MMAP2 test exists, without the build-id bit.",
 ["src/records/mmap2.rs", "src/parse.rs", "src/config.rs"],
 [("Mmap2/MmapDetail::parse and accessors", "src/records/mmap2.rs"), ("with_misc", "src/parse.rs, src/config.rs")],
 observe=["accessors of Mmap2"])

prop("C10", "Counter reads decode exactly the fields selected by read_format",
 "For every read_format, READ records, single counter reads and group reads decode value, time_enabled, time_running, id and lost from exactly the selected fields in kernel order, and each accessor returns a value exactly when its field was selected. Group reads hold exactly the announced number of entries; a read_format with the wrong group bit or with unknown bits is rejected as an unsupported configuration instead of being misparsed.",
 ["inputs", "configurations"], "all read_format values (known, unknown and overflowing bits) x all payloads and counts x both byte orders",
 "Two tests use one read_format each.",
 ["src/records/read.rs", "src/flags.rs", "src/config.rs"],
 [("ReadValue/ReadGroup/Read::parse", "src/records/read.rs"), ("ReadFormat::element_len", "src/flags.rs"), ("GroupEntry::new", "src/records/read.rs")],
 observe=["accessors of ReadValue, ReadGroup and GroupEntry"])

prop("C11", "Group reads iterate, index and convert consistently",
 "For every group read, len, is_empty, indexing, forward, backward and mixed iteration, and lookup by id all describe the same sequence of entries, without panicking, and lookup by id returns the first entry with that id or nothing when ids are not selected. Converting a single read to a group gives a one-entry group with the same values; converting back gives the original, and succeeds exactly for groups with one entry.",
 ["inputs", "histories"], "all read formats x all entry counts and values x all interleavings of iterator operations",
 "Tests look at the length of one two-entry group; iterator call sequences and conversions are untested.",
 ["src/records/read.rs"],
 [("GroupIter", "src/records/read.rs"), ("From<ReadValue> for ReadGroup, TryFrom<ReadGroup> for ReadValue, from_group_and_entry", "src/records/read.rs")],
 observe=["ReadGroup and GroupIter public methods"])

prop("C12", "Each record reaches the visitor method, or Record variant, of its type",
 "A record of type T calls exactly the one visitor method for T, once, with the record decoded from its body and with metadata carrying the header's type and misc and the sample_id; any other type calls visit_unknown with exactly the body bytes. Visitor methods that are not overridden forward to visit_unimplemented with the same metadata (visit_mmap2 to visit_mmap with the record converted), and parsing a Record yields the variant of the same type holding the same record.",
 ["inputs", "configurations", "programs"], "all 32-bit type values, all misc values, all bodies, all visitors (every subset of overridden methods)",
 "Only a few record types go through a visitor in tests, and none checks the metadata or the defaults.",
 ["src/parse.rs", "src/visitor.rs", "src/records/mod.rs"],
 [("parse_record_impl dispatch", "src/parse.rs"), ("Visitor default methods, RecordMetadata", "src/visitor.rs"), ("RecordVisitor, From impls, Record::parse*", "src/records/mod.rs")],
 observe=["visitor calls and Record values"])

prop("C13", "ParseConfig keeps everything parsing needs from perf_event_attr",
 "A ParseConfig built from a perf_event_attr reports the same sample_type (its low 40 bits, of which the kernel defines 25), the same known read_format bits, user and interrupt register masks, and applies the same sample_id_all and branch-hw-index settings, for every attr; unsupported read_format bits are never silently lost but kept as one unsupported bit, so that reads with them are refused. Setting one option, the misc flags or the endianness changes nothing else.",
 ["inputs", "configurations"], "all perf_event_attr values (all 64-bit sample_type and read_format words within the documented supported ranges, and beyond for read_format)",
 "One test checks the spare width of a bitfield; the packing of five values into one word is not tested for any value.",
 ["src/config.rs", "src/flags.rs"],
 [("ConfigFlags packing and setters", "src/config.rs"), ("From<perf_event_attr>", "src/config.rs")],
 [("ConfigFlags", "read_format | sample_type | sample_id_all | branch_hw_index | misc packed in one u64", "src/config.rs")],
 ["accessors of ParseConfig, parse results"])

prop("C14", "perf_event_attr is parsed by its own size field",
 "Parsing a perf_event_attr accepts exactly the sizes the kernel has published and any larger one, reads each field of the versions covered by the size from its kernel offset, leaves later fields zero, and consumes exactly size bytes. Other sizes are invalid; a larger structure is accepted only if all bytes beyond the known fields are zero, and is otherwise reported as unsupported data.",
 ["inputs", "configurations"], "all 2^32 sizes x all bytes x both byte orders x all sources",
 "No test parses a perf_event_attr.",
 ["src/impls/perf_event_attr.rs", "src/parse.rs"],
 [("Parse for perf_event_attr", "src/impls/perf_event_attr.rs")],
 observe=["fields of the parsed attr, bytes consumed, error kinds"])

prop("C15", "Memory use is bounded by the data actually supplied",
 "While parsing, the size of every allocation made from a length or count found in the data is bounded by the data actually available: at most the remaining length when the source knows it, and otherwise at most 16 KiB before the corresponding bytes have been read. A short hostile input can therefore never cause a huge allocation or exhaust memory, whatever lengths it announces.",
 ["inputs", "configurations"], "all announced lengths and counts, all sources with and without a remaining-length hint, all element types",
 "Tests never announce more data than they supply, and never look at allocation sizes.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("safe_capacity_bound, parse_bytes, parse_bytes_slow, parse_repeated", "src/parse.rs"), ("remaining_hint", "src/parsebuf.rs")],
 observe=["sizes requested from the allocator during a parse"])

prop("C16", "Slices of typed elements equal their element-wise parse",
 "Parsing a slice of n elements gives exactly the n elements that parsing them one by one would give, and consumes exactly their bytes, whether the slice was borrowed from the source or copied. A slice is borrowed from the source only if the configured endianness is the host's and the bytes are properly aligned; otherwise the direct variant returns nothing and nothing of the source has been consumed.",
 ["inputs", "configurations"], "all element counts (including those whose byte size overflows), all alignments and chunk boundaries of the source, all endiannesses, all element types usable in records",
 "No test uses more than one alignment or compares the borrowed with the copied path.",
 ["src/parse.rs"],
 [("parse_slice_direct, parse_slice, parse_repeated", "src/parse.rs")],
 observe=["Parser::parse_slice, parse_slice_direct, parse_repeated; bytes left in the source"])

prop("C17", "Optional fields are present exactly when they were recorded",
 "A field of a Sample or SampleId reads as present exactly when it was recorded when the value was built, with exactly the recorded value, and reading one never touches memory of an absent field. Cloning, dropping and moving such values neither loses, duplicates nor leaks a field, the default value has no fields, and a SampleId taken from a Sample has the same pid, tid, time, id, stream_id and cpu.",
 ["inputs", "configurations", "histories"], "all subsets of the 25 optional fields x all values x all sequences of clone, read, drop",
 "Two samples with a few scalar fields are read in tests; none is cloned, and owned optional fields are never dropped under a leak check.",
 ["src/macros.rs", "src/records/sample.rs", "src/records/mod.rs"],
 [("option_struct! generated new, accessors, Clone, Drop, Default", "src/macros.rs"), ("SampleId::from_sample, accessors", "src/records/mod.rs, src/records/sample.rs")],
 observe=["accessors of Sample and SampleId"])

prop("C18", "Packed words are split into the kernel's bit fields",
 "For every 64-bit word, each accessor of the memory data source, branch entry, transaction and AUX flags values returns exactly the bits the kernel defines for it (operation, level, snoop and extended snoop, lock, TLB, level number, remote, blocked, hops; mispredicted, predicted, in-transaction, abort, cycles, type; abort code; PMU format type). No accessor reports bits of another field, and the raw flag words keep all bits.",
 ["inputs"], "all 2^64 words for each packed type, both source byte orders",
 "No test reads any of these accessors.",
 ["src/records/sample.rs", "src/records/aux_record.rs"],
 [("DataSource, BranchEntry, Txn, MemSnoop accessors", "src/records/sample.rs"), ("AuxFlags::pmu_format_type", "src/records/aux_record.rs")],
 observe=["accessors of DataSource, BranchEntry, Txn, AuxFlags"])

prop("C19", "Errors say what went wrong and never hide a source error",
 "Parsing from an in-memory slice fails with an end-of-data error exactly when the data ends before the value does, and otherwise only with the documented kind for what is wrong with the data or the configuration. An error raised by the data source is returned as is, with its kind and its underlying error; I/O errors become external errors, except an unexpected end of file, which becomes an end-of-data error.",
 ["inputs", "configurations", "fault_sequences"], "all inputs and configs; all sources failing at any read with any error",
 "Tests parse valid data; no failing source exists in the test suite.",
 ["src/error.rs", "src/parse.rs", "src/parsebuf.rs"],
 [("ParseError constructors and conversions", "src/error.rs"), ("? propagation in Parser", "src/parse.rs")],
 observe=["ParseError::kind(), Error::source()"])

prop("C20", "Parser primitives return exactly the bytes asked for, or nothing is invented",
 "The building blocks offered for custom record types behave as documented for all inputs: parse_bytes(n) and fixed arrays return the next n bytes and consume exactly them, parse_rest returns everything left, parse_rest_trim_nul the same without trailing NULs, conditional parsing consumes nothing when disabled and exactly the value when enabled, and repeated parsing returns exactly n values. The configuration seen by a parser never changes while parsing.",
 ["inputs", "histories", "configurations"], "all data, lengths and sequences of primitive calls on all sources",
 "One test calls parse_rest on five bytes.",
 ["src/parse.rs", "src/parsebuf.rs"],
 [("Parser methods", "src/parse.rs"), ("ParseBufChunk, ParseBuf impls", "src/parsebuf.rs")],
 observe=["results of Parser methods and bytes left in the source"])

prop("C21", "Converting a record keeps its contents",
 "Turning a borrowed record into an owned one keeps every field, for every record that offers it, whether its data was borrowed or already owned; turning an MMAP2 record into an MMAP record keeps pid, tid, addr, len, pgoff and filename. The conversions from records into Record wrap the same value in the variant of its type.",
 ["inputs"], "all field values and names, borrowed and owned data",
 "No test calls any of these conversions.",
 ["src/records/mmap.rs", "src/records/mmap2.rs", "src/records/comm.rs", "src/records/cgroup.rs", "src/records/ksymbol.rs", "src/records/text_poke.rs", "src/records/read.rs", "src/records/mod.rs"],
 [("into_owned / to_owned, into_mmap / to_mmap, From impls", "src/records/*.rs")],
 observe=["fields of the converted values"])

prop("C22", "Debug and Display output renders the value faithfully",
 "Debug output of the names in MMAP, MMAP2, COMM, CGROUP and KSYMBOL records is a quoted, escaped rendering from which the original bytes can be recovered; build ids are printed as their bytes in order, two hex digits each. Debug output of single reads, group entries, group reads, samples and sample ids has a field for exactly those optional values that were recorded, and that of text pokes and data sources one for each of their parts, each under its own name and with its own value. Displaying a parse error prints the description of its kind, followed by a separator and the source's message when there is one; an external error with a source prints that message alone.",
 ["inputs"], "all byte strings (valid, invalid and truncated UTF-8), all configurations and values, all errors with and without a source",
 "No test formats any value.",
 ["src/util/fmt.rs", "src/error.rs", "src/macros.rs", "src/records/read.rs", "src/records/sample.rs", "src/records/mod.rs", "src/records/text_poke.rs"],
 [("ByteStr, HexStr, HexAddr", "src/util/fmt.rs"), ("Display for ParseError", "src/error.rs"), ("debug_if!, option_struct!", "src/macros.rs"), ("Debug for ReadValue, ReadGroup, GroupEntry", "src/records/read.rs"), ("Debug for Sample, DataSource", "src/records/sample.rs")],
 observe=["format!(\"{:?}\") and to_string()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
