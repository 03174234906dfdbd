// ---------------------------------------------------------------------------------------------------------
// Specification library: ghost state of a parser, the reference semantics every contract is stated in, and
// the assumed contracts of the standard library functions the extracted code calls.
// ---------------------------------------------------------------------------------------------------------
pub mod vp {
use vstd::prelude::*;
use std::borrow::Cow;
use std::mem::MaybeUninit;
use std::slice::ChunksExact;
use vstd::std_specs::maybe_uninit::*;
use crate::error::{ErrorKind, ParseError, ParseResult};
use crate::parse::{Parse, Parser};
use crate::parsebuf::ParseBuf;
use crate::endian::Endian;
use crate::config::ParseConfig;
use crate::records::{SampleId, SampleIdV, sid_none, sid_len};
use crate::visitor::{RecordMetadata, MdV};
use crate::bindings::perf_event_header;

verus! {


global size_of usize == 8;
global size_of u64 == 8;
global size_of u32 == 4;
global size_of u16 == 2;

// ---- ghost state -----------------------------------------------------------------------------------------

/// What a parse depends on besides the bytes.
pub struct Cfg {
    pub big: bool,
    pub native: bool,
    pub sty: u64,
    pub rf: u64,
    pub id_all: bool,
    pub hwi: bool,
    pub misc: u16,
    pub ru: u64,
    pub ri: u64,
}

/// Remaining bytes, or the error that ended the parse.
pub struct St {
    pub s: Seq<u8>,
    pub err: Option<ErrorKind>,
}

/// Byte order of the host.
pub uninterp spec fn host_big() -> bool;

/// True if every pointer into the source data is aligned for whatever is read through it. Functional contracts
/// of native-endian parses are conditional on it (known finding KF1), panic freedom is not.
pub uninterp spec fn aligned_world() -> bool;

pub open spec fn ok_st(s: Seq<u8>) -> St { St { s, err: None } }
pub open spec fn err_st(e: ErrorKind) -> St { St { s: Seq::<u8>::empty(), err: Some(e) } }

pub open spec fn hyp(c: Cfg) -> bool { aligned_world() || !c.native }

/// Sequencing of reference decoders; an error absorbs everything after it.
pub open spec fn run<'p, T: Parse<'p>>(st: St, c: Cfg) -> (T::V, St) {
    if st.err is Some { (arbitrary(), st) } else { T::sp(st.s, c) }
}

pub open spec fn run_if<'p, T: Parse<'p>>(b: bool, st: St, c: Cfg) -> (Option<T::V>, St) {
    if b {
        let (v, st1) = run::<T>(st, c);
        (Some(v), st1)
    } else {
        (None, st)
    }
}

/// The next n bytes.
pub open spec fn take(st: St, n: int) -> (Seq<u8>, St) {
    if st.err is Some { (arbitrary(), st) }
    else if st.s.len() < n { (arbitrary(), err_st(ErrorKind::Eof)) }
    else { (st.s.subrange(0, n), ok_st(st.s.subrange(n, st.s.len() as int))) }
}

/// how many bytes make n a multiple of p
pub open spec fn pad_to(n: int, p: int) -> int { if n % p == 0 { 0 } else { p - n % p } }

pub open spec fn take_rest(st: St) -> (Seq<u8>, St) {
    if st.err is Some { (arbitrary(), st) }
    else { (st.s, ok_st(Seq::empty())) }
}

/// Without its trailing NUL bytes.
pub open spec fn trim(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() > 0 && s.last() == 0 { trim(s.drop_last()) } else { s }
}

pub open spec fn take_trim(st: St) -> (Seq<u8>, St) {
    let (s, st1) = take_rest(st);
    (trim(s), st1)
}

/// n values one after the other.
pub open spec fn rep<'p, T: Parse<'p>>(st: St, c: Cfg, n: nat) -> (Seq<T::V>, St)
    decreases n
{
    if n == 0 { (Seq::empty(), st) }
    else {
        let (vs, st1) = rep::<T>(st, c, (n - 1) as nat);
        let (v, st2) = run::<T>(st1, c);
        (vs.push(v), st2)
    }
}

/// an error stays
pub proof fn lemma_rep_err<'p, T: Parse<'p>>(st: St, c: Cfg, k: nat, n: nat)
    requires k <= n,
    ensures rep::<T>(st, c, k).1.err is Some ==> rep::<T>(st, c, n).1 == rep::<T>(st, c, k).1
    decreases n
{
    if k < n { lemma_rep_err::<T>(st, c, k, (n - 1) as nat); }
}

/// A slice of n values. If the byte order is the host's then a length that overflows is refused outright.
pub open spec fn slice_of<'p, T: Parse<'p>>(st: St, c: Cfg, n: int) -> (Seq<T::V>, St) {
    if st.err is Some { (arbitrary(), st) }
    else if c.native && n * vstd::layout::size_of::<T>() > usize::MAX { (arbitrary(), err_st(ErrorKind::InvalidRecord)) }
    else { rep::<T>(st, c, n as nat) }
}

pub open spec fn fail<V>(st: St, b: bool, e: ErrorKind) -> (V, St) {
    if st.err is Some { (arbitrary(), st) } else { (arbitrary(), if b { err_st(e) } else { st }) }
}

/// The views of a sequence of values.
pub open spec fn pvs<'p, T: Parse<'p>>(s: Seq<T>) -> Seq<T::V> { Seq::new(s.len(), |i: int| s[i].pv()) }

pub open spec fn cowv<T: Clone>(c: Cow<'_, [T]>) -> Seq<T> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ }
}

pub open spec fn opt_pv<'p, T: Parse<'p>>(o: Option<T>) -> Option<T::V> {
    match o { Some(v) => Some(v.pv()), None => None }
}

// ---- sequences -----------------------------------------------------------------------------------------

pub broadcast proof fn lemma_sub_full<A>(s: Seq<A>, a: int, b: int)
    requires a == 0, b == s.len(),
    ensures #[trigger] s.subrange(a, b) == s
{ assert(s.subrange(a, b) =~= s); }
pub broadcast proof fn lemma_sub_empty<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a, a == b, b <= s.len(),
    ensures #[trigger] s.subrange(a, b) == Seq::<A>::empty()
{ assert(s.subrange(a, b) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_sub_sub<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_empty_len<A>(s: Seq<A>)
    requires #[trigger] s.len() == 0,
    ensures s == Seq::<A>::empty()
{ assert(s =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_prefix<A>(a: Seq<A>, b: Seq<A>)
    requires #[trigger] a.is_prefix_of(b),
    ensures a.len() <= b.len(), a == b.subrange(0, a.len() as int)
{ assert(a =~= b.subrange(0, a.len() as int)); }
pub broadcast proof fn lemma_sub_add<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b, b == c, c <= d <= s.len(),
    ensures #[trigger] (s.subrange(a, b) + s.subrange(c, d)) == s.subrange(a, d)
{ assert(s.subrange(a, b) + s.subrange(c, d) =~= s.subrange(a, d)); }
pub broadcast proof fn lemma_arr_empty<A, const N: usize>(a: [A; N])
    requires N == 0,
    ensures #[trigger] a@ == Seq::<A>::empty()
{ assert(a@ =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_div_mul(n: int, d: int)
    requires n >= 0, d > 0,
    ensures #[trigger] (n / d) * d <= n
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d); assert(n % d >= 0); assert((n / d) * d == d * (n / d)) by (nonlinear_arith); }
pub broadcast proof fn lemma_mul_mod(n: int, d: int)
    requires d > 0,
    ensures #[trigger] (n * d) % d == 0
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, d); }
pub proof fn lemma_mul_le(a: int, b: int, d: int)
    requires a <= b, d >= 0,
    ensures a * d <= b * d
{ assert(a * d <= b * d) by (nonlinear_arith) requires a <= b, d >= 0; }
pub broadcast proof fn lemma_rev_rev<A>(s: Seq<A>)
    ensures #[trigger] s.reverse().reverse() == s
{ assert(s.reverse().reverse() =~= s); }
/// std::mem::size_of_val of a value whose size is known
pub broadcast axiom fn axiom_size_of_val<T>(v: &T)
    ensures #[trigger] vstd::layout::spec_size_of_val(v) == vstd::layout::size_of::<T>();
pub broadcast axiom fn axiom_header_size()
    ensures #[trigger] vstd::layout::size_of::<perf_event_header>() == 8;
pub broadcast group group_vp {
    axiom_header_size, axiom_size_of_val, axiom_cow_ref, lemma_arr_empty, axiom_io_kind_eq, axiom_io_kind_obeys, axiom_cow_own,
}
pub broadcast group group_seq {
    lemma_rev_rev, lemma_mul_mod, lemma_div_mul, lemma_prefix, lemma_sub_add, lemma_sub_full, lemma_sub_empty,
    lemma_sub_sub, lemma_empty_len,
}

/// what every conforming data source guarantees
pub broadcast proof fn lemma_buf<'p, B: ParseBuf<'p>>(b: B)
    requires b.inv(),
    ensures #[trigger] b.rest().len() <= usize::MAX, b.avail() <= b.rest().len(),
{ b.lemma_src(); }
pub broadcast proof fn lemma_buf_fault<'p, B: ParseBuf<'p>>(b: B, e: ParseError)
    requires b.inv(), #[trigger] (b.faults())(e),
    ensures e.code != ErrorKind::Eof
{ b.lemma_src(); }
pub broadcast proof fn lemma_endian_clone<E: Endian>(a: &E, b: E)
    requires #[trigger] call_ensures(E::clone, (a,), b),
    ensures a.is_big() == b.is_big(), a.native() == b.native()
{ E::lemma_clone(a, &b); }
pub broadcast group group_src { lemma_buf, lemma_buf_fault, lemma_endian_clone }

// ---- byte order ------------------------------------------------------------------------------------------

pub open spec fn byte_at(b: Seq<u8>, big: bool, i: int) -> u8 { if big { b[b.len() - 1 - i] } else { b[i] } }

pub open spec fn dec16(big: bool, b: Seq<u8>) -> u16 {
    (byte_at(b, big, 0) as u16) | ((byte_at(b, big, 1) as u16) << 8)
}
pub open spec fn dec32(big: bool, b: Seq<u8>) -> u32 {
    (byte_at(b, big, 0) as u32) | ((byte_at(b, big, 1) as u32) << 8) | ((byte_at(b, big, 2) as u32) << 16)
        | ((byte_at(b, big, 3) as u32) << 24)
}
pub open spec fn dec64(big: bool, b: Seq<u8>) -> u64 {
    (byte_at(b, big, 0) as u64) | ((byte_at(b, big, 1) as u64) << 8) | ((byte_at(b, big, 2) as u64) << 16)
        | ((byte_at(b, big, 3) as u64) << 24) | ((byte_at(b, big, 4) as u64) << 32)
        | ((byte_at(b, big, 5) as u64) << 40) | ((byte_at(b, big, 6) as u64) << 48)
        | ((byte_at(b, big, 7) as u64) << 56)
}

#[verifier::external_body]
pub fn vp_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == dec16(false, b@) { u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn vp_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == dec32(false, b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vp_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == dec64(false, b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vp_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == dec16(true, b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn vp_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == dec32(true, b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vp_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == dec64(true, b@) { u64::from_be_bytes(b) }
#[verifier::external_body]
pub fn vp_u16_from_ne_bytes(b: [u8; 2]) -> (r: u16) ensures r == dec16(host_big(), b@) { u16::from_ne_bytes(b) }
#[verifier::external_body]
pub fn vp_u32_from_ne_bytes(b: [u8; 4]) -> (r: u32) ensures r == dec32(host_big(), b@) { u32::from_ne_bytes(b) }
#[verifier::external_body]
pub fn vp_u64_from_ne_bytes(b: [u8; 8]) -> (r: u64) ensures r == dec64(host_big(), b@) { u64::from_ne_bytes(b) }
#[verifier::external_body]
pub fn vp_u64_to_ne_bytes(x: u64) -> (r: [u8; 8]) ensures dec64(host_big(), r@) == x { x.to_ne_bytes() }

pub proof fn lemma_ab()
    ensures dec16(false, seq![97u8, 98u8]) != dec16(true, seq![97u8, 98u8])
{
    assert(((97u8 as u16) | ((98u8 as u16) << 8)) != ((98u8 as u16) | ((97u8 as u16) << 8))) by (bit_vector);
}

// ---- contracts -------------------------------------------------------------------------------------------

/// What holds between a parser before and after any operation, whether it succeeded or not.
pub open spec fn frame<'p, B: ParseBuf<'p>, E: Endian>(p0: Parser<B, E>, p1: Parser<B, E>) -> bool {
    &&& p1.wf()
    &&& p1.config == p0.config
    &&& p1.rest().len() <= p0.rest().len()
    &&& p1.data.span() == p0.data.span()
    &&& p1.data.faults() == p0.data.faults()
}

/// The error is the reference's, or one the data source raised.
pub open spec fn err_ok<'p, B: ParseBuf<'p>, E: Endian>(p0: Parser<B, E>, e: ParseError, st: St) -> bool {
    st.err == Some(e.code) || (p0.data.faults())(e)
}

/// The hypothesis under which parsing a P is specified.
pub open spec fn hp<'p, P: Parse<'p>>(c: Cfg) -> bool { P::al() ==> hyp(c) }

pub open spec fn post<'p, B: ParseBuf<'p>, E: Endian, R, V>(
    p0: Parser<B, E>, p1: Parser<B, E>, r: ParseResult<R>, rv: V, sp: (V, St)
) -> bool {
    posth(true, p0, p1, r, rv, sp)
}

/// post, with the functional part under a hypothesis
pub open spec fn posth<'p, B: ParseBuf<'p>, E: Endian, R, V>(
    h: bool, p0: Parser<B, E>, p1: Parser<B, E>, r: ParseResult<R>, rv: V, sp: (V, St)
) -> bool {
    &&& frame(p0, p1)
    &&& h ==> match r {
        Ok(v) => sp.1.err is None && rv =~= sp.0 && p1.rest() =~= sp.1.s,
        Err(e) => err_ok(p0, e, sp.1),
    }
}

// ---- replacements for macros ------------------------------------------------------------------------------

/// assert!, assert_eq!, assert_ne!
pub fn vp_assert(b: bool) requires b {}

/// panic!, unreachable!, todo!, unimplemented!
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }

/// format_args!: only the text is built
pub fn vp_message() -> &'static str { "" }

/// `Some` used as a function
pub fn vp_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }

/// Vec::with_capacity, with the bound on its size in bytes as an obligation. The allocation of a capacity
/// that was requested is assumed to be exact (parse_bytes relies on it).
#[verifier::external_body]
pub fn vp_with_capacity<T>(n: usize, bound: Ghost<int>) -> (r: Vec<T>)
    requires n * vstd::layout::size_of::<T>() <= bound@,
    ensures r@ == Seq::<T>::empty(), r@.len() == 0, vec_cap(r) == n,
{ unimplemented!() }

pub uninterp spec fn vec_cap<T>(v: Vec<T>) -> usize;

/// bound for allocations that do not depend on the data
pub open spec fn small() -> int { 16384 }

// ---- assumed contracts of std ------------------------------------------------------------------------------

pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
pub assume_specification<T> [ <[T]>::split_last ] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r {
        Some((l, h)) => s@.len() > 0 && *l == s@.last() && h@ == s@.drop_last(),
        None => s@.len() == 0,
    };
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [ Option::<T>::or ] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [ bool::then_some ] (b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == opt_ref(o);
// std::slice::ChunksExact: the chunks still to come
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExChunksExact<'a, T: 'a>(ChunksExact<'a, T>);
pub uninterp spec fn chunks<'a, T>(c: ChunksExact<'a, T>) -> Seq<Seq<T>>;
pub open spec fn chunk_seq<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> {
    Seq::new((s.len() as int / n) as nat, |i: int| s.subrange(i * n, i * n + n))
}
pub assume_specification<'a, T> [ <[T]>::chunks_exact ] (s: &'a [T], n: usize) -> (r: ChunksExact<'a, T>)
    requires n != 0
    ensures chunks(r) == chunk_seq(s@, n as int);
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as Iterator>::next ] (it: &mut ChunksExact<'a, T>) -> (r: Option<&'a [T]>)
    ensures match r {
        Some(x) => chunks(*old(it)).len() > 0 && x@ == chunks(*old(it))[0] && chunks(*final(it)) == chunks(*old(it)).skip(1),
        None => chunks(*old(it)).len() == 0 && chunks(*final(it)) == chunks(*old(it)),
    };
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as Iterator>::nth ] (it: &mut ChunksExact<'a, T>, n: usize) -> (r: Option<<ChunksExact<'a, T> as Iterator>::Item>)
    ensures match r {
        Some(x) => n < chunks(*old(it)).len() && x@ == chunks(*old(it))[n as int] && chunks(*final(it)) == chunks(*old(it)).skip(n + 1),
        None => n >= chunks(*old(it)).len() && chunks(*final(it)).len() == 0,
    };
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as Iterator>::size_hint ] (it: &ChunksExact<'a, T>) -> (r: (usize, Option<usize>))
    ensures r.0 == chunks(*it).len(), r.1 == Some(r.0);
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as Iterator>::count ] (it: ChunksExact<'a, T>) -> (r: usize)
    ensures r == chunks(it).len();
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as Iterator>::last ] (it: ChunksExact<'a, T>) -> (r: Option<<ChunksExact<'a, T> as Iterator>::Item>)
    ensures match r {
        Some(x) => chunks(it).len() > 0 && x@ == chunks(it).last(),
        None => chunks(it).len() == 0,
    };
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as DoubleEndedIterator>::next_back ] (it: &mut ChunksExact<'a, T>) -> (r: Option<&'a [T]>)
    ensures match r {
        Some(x) => chunks(*old(it)).len() > 0 && x@ == chunks(*old(it)).last() && chunks(*final(it)) == chunks(*old(it)).take(chunks(*old(it)).len() - 1),
        None => chunks(*old(it)).len() == 0 && chunks(*final(it)) == chunks(*old(it)),
    };
pub assume_specification<'a, T> [ <ChunksExact<'a, T> as DoubleEndedIterator>::nth_back ] (it: &mut ChunksExact<'a, T>, n: usize) -> (r: Option<<ChunksExact<'a, T> as Iterator>::Item>)
    ensures match r {
        Some(x) => n < chunks(*old(it)).len() && x@ == chunks(*old(it))[chunks(*old(it)).len() - 1 - n] && chunks(*final(it)) == chunks(*old(it)).take(chunks(*old(it)).len() - 1 - n),
        None => n >= chunks(*old(it)).len() && chunks(*final(it)).len() == 0,
    };
// std::iter::Copied over a slice: the elements still to come
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpCopied<'a, T>(std::iter::Copied<std::slice::Iter<'a, T>>);
pub uninterp spec fn copied_rest<'a, T>(c: VpCopied<'a, T>) -> Seq<T>;
impl<'a, T: Copy> VpCopied<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => copied_rest(*old(self)).len() > 0 && x == copied_rest(*old(self))[0] && copied_rest(*final(self)) == copied_rest(*old(self)).skip(1),
            None => copied_rest(*old(self)).len() == 0 && copied_rest(*final(self)) == copied_rest(*old(self)),
        }
    { self.0.next() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => copied_rest(*old(self)).len() > 0 && x == copied_rest(*old(self)).last() && copied_rest(*final(self)) == copied_rest(*old(self)).take(copied_rest(*old(self)).len() - 1),
            None => copied_rest(*old(self)).len() == 0 && copied_rest(*final(self)) == copied_rest(*old(self)),
        }
    { self.0.next_back() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == copied_rest(*self).len() { self.0.len() }
}
/// `s.iter().copied()`
#[verifier::external_body]
pub fn vp_iter_copied<'a, T: Copy>(s: &'a [T]) -> (r: VpCopied<'a, T>) ensures copied_rest(r) == s@ { VpCopied(s.iter().copied()) }
/// `Vec::extend`
pub trait VpItems<T> { spec fn onto(self, s: Seq<T>) -> Seq<T>; fn vp_onto(self, v: &mut Vec<T>) where Self: Sized; }
impl<T> VpItems<T> for Option<T> {
    open spec fn onto(self, s: Seq<T>) -> Seq<T> { match self { Some(x) => s.push(x), None => s } }
    #[verifier::external_body]
    fn vp_onto(self, v: &mut Vec<T>) { v.extend(self) }
}
impl<T> VpItems<T> for Vec<T> {
    open spec fn onto(self, s: Seq<T>) -> Seq<T> { s + self@ }
    #[verifier::external_body]
    fn vp_onto(self, v: &mut Vec<T>) { v.extend(self) }
}
#[verifier::external_body]
pub fn vp_extend<T, I: VpItems<T>>(v: &mut Vec<T>, x: I)
    ensures final(v)@ == x.onto(old(v)@)
{ x.vp_onto(v) }
#[verifier::external_body]
pub fn vp_chunks_len<'a, T>(it: &ChunksExact<'a, T>) -> (r: usize) ensures r == chunks(*it).len() { it.len() }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExIoErrorKind(std::io::ErrorKind);
pub uninterp spec fn io_kind(e: std::io::Error) -> std::io::ErrorKind;
pub assume_specification [ std::io::Error::kind ] (e: &std::io::Error) -> (r: std::io::ErrorKind) ensures r == io_kind(*e);
/// `==` on kinds of I/O error is the derived one
pub broadcast axiom fn axiom_io_kind_eq(a: std::io::ErrorKind, b: std::io::ErrorKind)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
pub broadcast axiom fn axiom_io_kind_obeys()
    ensures #[trigger] <std::io::ErrorKind as vstd::std_specs::cmp::PartialEqSpec<std::io::ErrorKind>>::obeys_eq_spec();

/// what `?` makes of an I/O error: it calls `From::from`, whose contract is proved
pub broadcast axiom fn axiom_question_io(e: std::io::Error, r: ParseError)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<ParseError, std::io::Error>(e, r),
    ensures r == crate::error::of_io(e);

// ---- names as OS strings ----------------------------------------------------------------------------------
// std::ffi::OsStr and std::path::Path, of which only the bytes matter
#[verifier::external_body]
pub struct OsStr { _p: () }
#[verifier::external_body]
pub struct Path { _p: () }
pub uninterp spec fn os_bytes(s: &OsStr) -> Seq<u8>;
pub uninterp spec fn path_os(s: &Path) -> &OsStr;
pub open spec fn path_bytes(s: &Path) -> Seq<u8> { os_bytes(path_os(s)) }
/// `OsStrExt::from_bytes`
#[verifier::external_body]
pub fn vp_os_str(b: &[u8]) -> (r: &OsStr) ensures os_bytes(r) == b@ { unimplemented!() }
/// `Path::new` of an OsStr
#[verifier::external_body]
pub fn vp_path(s: &OsStr) -> (r: &Path) ensures path_os(r) == s { unimplemented!() }

// ---- text ----------------------------------------------------------------------------------------------
/// these bytes are valid UTF-8
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
/// the characters of a valid text, each as char::escape_debug shows it
pub uninterp spec fn esc_text(b: Seq<u8>) -> Seq<char>;
/// the bytes, each as u8::escape_ascii shows it
pub uninterp spec fn esc_ascii(b: Seq<u8>) -> Seq<u8>;
pub open spec fn as_chars(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
/// str, as far as its bytes go
#[verifier::external_body]
pub struct VpStr { _p: () }
impl VpStr {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { unimplemented!() }
}
#[verifier::external_body]
pub struct VpUtf8Error { _p: () }
impl VpUtf8Error {
    pub uninterp spec fn valid(&self) -> nat;
    pub uninterp spec fn bad(&self) -> Option<usize>;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.valid() { unimplemented!() }
    #[verifier::external_body]
    pub fn error_len(&self) -> (r: Option<usize>) ensures r == self.bad() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_from_utf8(b: &[u8]) -> (r: core::result::Result<&VpStr, VpUtf8Error>)
    ensures match r {
        Ok(t) => t.bytes() == b@ && utf8(b@),
        Err(e) => e.valid() < b@.len() && utf8(b@.subrange(0, e.valid() as int))
            && (e.bad() matches Some(n) ==> 1 <= n <= 3 && e.valid() + n <= b@.len()),
    }
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vp_from_utf8_unchecked(b: &[u8]) -> (r: &VpStr)
    requires utf8(b@)
    ensures r.bytes() == b@
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_escape_debug(t: &VpStr) -> (r: Vec<char>) ensures r@ == esc_text(t.bytes()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_escape_ascii(b: &[u8]) -> (r: Vec<u8>) ensures r@ == esc_ascii(b@) { unimplemented!() }
/// what a `for` goes through
pub trait VpList: Sized {
    type Item;
    spec fn listed(&self) -> Seq<Self::Item>;
    fn vp_list(self) -> (r: Vec<Self::Item>) ensures r@ == self.listed();
}
impl<T> VpList for Vec<T> {
    type Item = T;
    open spec fn listed(&self) -> Seq<T> { self@ }
    fn vp_list(self) -> (r: Vec<T>) { self }
}
impl<T, const N: usize> VpList for [T; N] {
    type Item = T;
    open spec fn listed(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_list(self) -> (r: Vec<T>) { self.into_iter().collect() }
}
impl<'a, T> VpList for &'a [T] {
    type Item = &'a T;
    open spec fn listed(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vp_list(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
pub fn vp_items<X: VpList>(x: X) -> (r: Vec<X::Item>) ensures r@ == x.listed() { x.vp_list() }

// ---- BufReader --------------------------------------------------------------------------------------------

#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: std::io::Read; }
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);
/// what the reader has not handed out yet: up to its end, or up to where it first reports an unexpected end
pub uninterp spec fn br_rest<R>(b: std::io::BufReader<R>) -> Seq<u8>;
/// how much of it is in the buffer
pub uninterp spec fn br_buf<R>(b: std::io::BufReader<R>) -> nat;
/// the errors the reader may raise
pub uninterp spec fn br_faults<R>(b: std::io::BufReader<R>) -> spec_fn(std::io::Error) -> bool;
/// `BufRead::fill_buf` and `BufRead::consume`, as std documents them
pub trait VpBufRead: Sized {
    spec fn b_rest(&self) -> Seq<u8>;
    spec fn b_buf(&self) -> nat;
    spec fn b_faults(&self) -> spec_fn(std::io::Error) -> bool;
    fn vp_fill_buf(&mut self) -> (r: std::io::Result<&[u8]>)
        requires old(self).b_buf() <= old(self).b_rest().len()
        ensures final(self).b_rest() == old(self).b_rest(), final(self).b_faults() == old(self).b_faults(),
            final(self).b_buf() <= final(self).b_rest().len(),
            match r {
                Ok(b) => b@.is_prefix_of(old(self).b_rest()) && b@.len() == final(self).b_buf()
                    && (b@.len() == 0 ==> old(self).b_rest().len() == 0),
                Err(e) => (old(self).b_faults())(e) && (io_kind(e) is UnexpectedEof ==> old(self).b_rest().len() == 0),
            };
    fn vp_consume(&mut self, n: usize)
        requires n <= old(self).b_buf() <= old(self).b_rest().len()
        ensures final(self).b_rest() == old(self).b_rest().subrange(n as int, old(self).b_rest().len() as int),
            final(self).b_buf() == old(self).b_buf() - n,
            final(self).b_faults() == old(self).b_faults();
}
impl<R: std::io::Read> VpBufRead for std::io::BufReader<R> {
    open spec fn b_rest(&self) -> Seq<u8> { br_rest(*self) }
    open spec fn b_buf(&self) -> nat { br_buf(*self) }
    open spec fn b_faults(&self) -> spec_fn(std::io::Error) -> bool { br_faults(*self) }
    #[verifier::external_body]
    fn vp_fill_buf(&mut self) -> (r: std::io::Result<&[u8]>) { std::io::BufRead::fill_buf(self) }
    #[verifier::external_body]
    fn vp_consume(&mut self, n: usize) { std::io::BufRead::consume(self, n) }
}

pub uninterp spec fn cow_ref<'a, B: ?Sized + ToOwned>(c: &Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [ <Cow<'a, B> as core::ops::Deref>::deref ] (c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_ref(c);
pub broadcast axiom fn axiom_cow_ref<'a, T: Clone>(c: &Cow<'a, [T]>)
    ensures (#[trigger] cow_ref::<[T]>(c))@ == cowv(*c);
// the clone of a borrowed slice is borrowed, that of an owned one is owned; the elements (integers and BranchEntry)
// are Copy
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [ <Cow<'a, B> as Clone>::clone ] (c: &'b Cow<'a, B>) -> (r: Cow<'a, B>)
    ensures cow_ref(&r) == cow_ref(c);

/// `X.map(|v| &**v)`
pub fn vp_map_deref<'b, 'a, T: Clone>(c: Option<&'b Cow<'a, [T]>>) -> (r: Option<&'b [T]>)
    ensures match (c, r) { (Some(x), Some(y)) => y@ == cowv(*x), (None, None) => true, _ => false }
{
    broadcast use axiom_cow_ref;
    match c { Some(x) => Some(&**x), None => None }
}
/// `X.into_owned()`
pub uninterp spec fn cow_own<'a, B: ?Sized + ToOwned>(c: Cow<'a, B>) -> <B as ToOwned>::Owned;
pub assume_specification<'a, B: ?Sized + ToOwned> [ Cow::<'a, B>::into_owned ] (c: Cow<'a, B>) -> (r: <B as ToOwned>::Owned)
    ensures r == cow_own(c);
pub broadcast axiom fn axiom_cow_own<'a, T: Clone>(c: Cow<'a, [T]>) ensures (#[trigger] cow_own::<[T]>(c))@ == cowv(c);
/// `X.into_owned().into()`
#[verifier::external_body]
pub fn vp_own<'a, 'b, T: Clone>(c: Cow<'a, [T]>) -> (r: Cow<'b, [T]>) ensures cowv(r) == cowv(c) { Cow::Owned(c.into_owned()) }
/// `X.to_mut()`
#[verifier::external_body]
pub fn vp_to_mut<'b, 'a, T: Clone>(c: &'b mut Cow<'a, [T]>) -> (r: &'b mut Vec<T>)
    ensures r@ == cowv(*old(c)), cowv(*final(c)) == final(r)@
{ c.to_mut() }
/// `X.drain(n..).collect()`
#[verifier::external_body]
pub fn vp_drain_tail<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, n as int), r@ == old(v)@.subrange(n as int, old(v)@.len() as int)
{ v.drain(n..).collect() }
/// `X.into()` where the target is a `Cow<[T]>`
pub trait VpIntoCow<'a, T: Clone>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn vp_into(self) -> (r: Cow<'a, [T]>) ensures cowv(r) == self.items();
}
impl<'a, T: Clone> VpIntoCow<'a, T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn vp_into(self) -> (r: Cow<'a, [T]>) { Cow::Owned(self) }
}
impl<'a, T: Clone> VpIntoCow<'a, T> for &'a [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn vp_into(self) -> (r: Cow<'a, [T]>) { Cow::Borrowed(self) }
}
pub fn vp_into_cow<'a, T: Clone, S: VpIntoCow<'a, T>>(s: S) -> (r: Cow<'a, [T]>) ensures cowv(r) == s.items() { s.vp_into() }
/// the number of bits that are set
pub open spec fn ones(x: u64) -> int {
    ((x >> 0) & 1) + ((x >> 1) & 1) + ((x >> 2) & 1) + ((x >> 3) & 1) + ((x >> 4) & 1) + ((x >> 5) & 1) + ((x >> 6) & 1) + ((x >> 7) & 1) +
    ((x >> 8) & 1) + ((x >> 9) & 1) + ((x >> 10) & 1) + ((x >> 11) & 1) + ((x >> 12) & 1) + ((x >> 13) & 1) + ((x >> 14) & 1) + ((x >> 15) & 1) +
    ((x >> 16) & 1) + ((x >> 17) & 1) + ((x >> 18) & 1) + ((x >> 19) & 1) + ((x >> 20) & 1) + ((x >> 21) & 1) + ((x >> 22) & 1) + ((x >> 23) & 1) +
    ((x >> 24) & 1) + ((x >> 25) & 1) + ((x >> 26) & 1) + ((x >> 27) & 1) + ((x >> 28) & 1) + ((x >> 29) & 1) + ((x >> 30) & 1) + ((x >> 31) & 1) +
    ((x >> 32) & 1) + ((x >> 33) & 1) + ((x >> 34) & 1) + ((x >> 35) & 1) + ((x >> 36) & 1) + ((x >> 37) & 1) + ((x >> 38) & 1) + ((x >> 39) & 1) +
    ((x >> 40) & 1) + ((x >> 41) & 1) + ((x >> 42) & 1) + ((x >> 43) & 1) + ((x >> 44) & 1) + ((x >> 45) & 1) + ((x >> 46) & 1) + ((x >> 47) & 1) +
    ((x >> 48) & 1) + ((x >> 49) & 1) + ((x >> 50) & 1) + ((x >> 51) & 1) + ((x >> 52) & 1) + ((x >> 53) & 1) + ((x >> 54) & 1) + ((x >> 55) & 1) +
    ((x >> 56) & 1) + ((x >> 57) & 1) + ((x >> 58) & 1) + ((x >> 59) & 1) + ((x >> 60) & 1) + ((x >> 61) & 1) + ((x >> 62) & 1) + ((x >> 63) & 1)
}
pub assume_specification [ u64::count_ones ] (x: u64) -> (r: u32)
    ensures r == ones(x), r <= 64;
/// what a closure without an overlay of its own returns, repeated from its body
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }

// ---- std functions that edits of the crate are likely to use (none is called today) --------------------------
pub assume_specification [ u8::count_ones ] (x: u8) -> (r: u32) ensures r == ones(x as u64), r <= 8;
pub assume_specification [ u16::count_ones ] (x: u16) -> (r: u32) ensures r == ones(x as u64), r <= 16;
pub assume_specification [ u32::count_ones ] (x: u32) -> (r: u32) ensures r == ones(x as u64), r <= 32;
pub assume_specification [ usize::count_ones ] (x: usize) -> (r: u32) ensures r == ones(x as u64), r <= 64;
pub assume_specification [ u8::wrapping_neg ] (x: u8) -> (r: u8) ensures r == (if x == 0 { 0 } else { 0x100 - x });
pub assume_specification [ u16::wrapping_neg ] (x: u16) -> (r: u16) ensures r == (if x == 0 { 0 } else { 0x1_0000 - x });
pub assume_specification [ u32::wrapping_neg ] (x: u32) -> (r: u32) ensures r == (if x == 0 { 0 } else { 0x1_0000_0000 - x });
pub assume_specification [ u64::wrapping_neg ] (x: u64) -> (r: u64) ensures r == (if x == 0 { 0 } else { u64::MAX - x + 1 });
pub assume_specification [ usize::wrapping_neg ] (x: usize) -> (r: usize) ensures r == (if x == 0 { 0 } else { usize::MAX - x + 1 });
pub assume_specification [ usize::abs_diff ] (x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ u64::abs_diff ] (x: u64, y: u64) -> (r: u64) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ usize::div_ceil ] (x: usize, y: usize) -> (r: usize)
    requires y != 0, ensures r == (if x % y == 0 { (x / y) as int } else { x / y + 1 });
pub assume_specification [ usize::next_multiple_of ] (x: usize, y: usize) -> (r: usize)
    requires y != 0, (if x % y == 0 { x as int } else { x + (y - x % y) }) <= usize::MAX,
    ensures r == (if x % y == 0 { x as int } else { x + (y - x % y) });
pub assume_specification [ usize::rem_euclid ] (x: usize, y: usize) -> (r: usize) requires y != 0, ensures r == x % y;
pub assume_specification [ usize::is_power_of_two ] (x: usize) -> (r: bool) ensures r == (ones(x as u64) == 1);
pub assume_specification<T: Ord> [ core::cmp::min ] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec()
        ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { b } else { a });
pub assume_specification<T: Ord> [ core::cmp::max ] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec()
        ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { a } else { b });
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(v) ==> f.requires((v,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_none_or ] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(v) ==> f.requires((v,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => r };
pub assume_specification<T, U, F: FnOnce(T) -> U> [ Option::<T>::map_or ] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(v) ==> f.requires((v,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [ Option::<T>::map_or_else ] (o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(v) => f.requires((v,)), None => d.requires(()) },
    ensures match o { Some(v) => f.ensures((v,), r), None => d.ensures((), r) };
pub assume_specification<T, F: FnOnce() -> Option<T>> [ Option::<T>::or_else ] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { Some(v) => r == o, None => f.ensures((), r) };
pub assume_specification<T, F: FnOnce(&T) -> bool> [ Option::<T>::filter ] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(v) ==> f.requires((&v,)),
    ensures match o { Some(v) => (r is None && f.ensures((&v,), false)) || (r == o && f.ensures((&v,), true)), None => r is None };
pub assume_specification<T, U> [ Option::<T>::and ] (o: Option<T>, x: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { x } else { None });
pub assume_specification<T, U> [ Option::<T>::zip ] (o: Option<T>, x: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, x) { (Some(a), Some(b)) => Some((a, b)), _ => None });
pub assume_specification<T> [ Option::<T>::xor ] (o: Option<T>, x: Option<T>) -> (r: Option<T>)
    ensures r == (match (o, x) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None });
pub assume_specification<T> [ Option::<T>::replace ] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [ Result::<T, E>::and_then ] (x: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires x matches Ok(v) ==> f.requires((v,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>> [ Result::<T, E>::or_else ] (x: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires x matches Err(e) ==> f.requires((e,)),
    ensures match x { Ok(v) => r == Ok::<T, G>(v), Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, F: FnOnce(E) -> T> [ Result::<T, E>::unwrap_or_else ] (x: Result<T, E>, f: F) -> (r: T)
    requires x matches Err(e) ==> f.requires((e,)),
    ensures match x { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, F: FnOnce(T) -> bool> [ Result::<T, E>::is_ok_and ] (x: Result<T, E>, f: F) -> (r: bool)
    requires x matches Ok(v) ==> f.requires((v,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(_) => !r };
pub assume_specification<T> [ core::mem::replace ] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub trait VpNe: Sized {
    type B;
    fn vp_to_ne_bytes(self) -> Self::B;
}
impl VpNe for u64 {
    type B = [u8; 8];
    fn vp_to_ne_bytes(self) -> (r: [u8; 8]) ensures dec64(host_big(), r@) == self { vp_u64_to_ne_bytes(self) }
}



// ---- record frames ---------------------------------------------------------------------------------------

/// A framed record: its bytes without the sample_id trailer, the configuration it is parsed with, its header.
pub struct MetaV { pub body: Seq<u8>, pub cfg: Cfg, pub ty: u32, pub misc: u16, pub sid: SampleIdV }

pub open spec fn hdr(h: perf_event_header) -> (u32, u16, u16) { (h.type_, h.misc, h.size) }

pub open spec fn meta_sp(st: St, h: (u32, u16, u16), c: Cfg) -> (MetaV, St) {
    let (ty, misc, size) = h;
    let c2 = Cfg { misc, ..c };
    if st.err is Some { (arbitrary(), st) }
    else if size < 8 { (arbitrary(), err_st(ErrorKind::InvalidRecord)) }
    else {
        let (data, st1) = take(st, size - 8);
        if st1.err is Some { (arbitrary(), st1) }
        // MMAP and SAMPLE
        else if ty == 1 || ty == 9 { (MetaV { body: data, cfg: c2, ty, misc, sid: sid_none() }, st1) }
        else if data.len() < sid_len(c2) { (arbitrary(), err_st(ErrorKind::InvalidRecord)) }
        else {
            let n = data.len() - sid_len(c2);
            (MetaV { body: data.subrange(0, n), cfg: c2, ty, misc, sid: SampleId::sp(data.subrange(n, data.len() as int), c2).0 }, st1)
        }
    }
}

pub open spec fn meta_all(s: Seq<u8>, c: Cfg) -> (MetaV, St) {
    let (h, st) = run::<perf_event_header>(ok_st(s), c);
    meta_sp(st, h, c)
}

pub open spec fn meta_post<'p, B: ParseBuf<'p>, C: ParseBuf<'p>, E: Endian>(
    p0: Parser<B, E>, p1: Parser<B, E>, r: ParseResult<(Parser<C, E>, RecordMetadata)>, sp: (MetaV, St)
) -> bool {
    &&& frame(p0, p1)
    &&& match r {
        Ok((q, md)) => {
            &&& sp.1.err is None
            &&& p1.rest() == sp.1.s
            &&& q.wf()
            &&& (forall|e: ParseError| !#[trigger] (q.data.faults())(e))
            &&& q.cfg() == sp.0.cfg
            &&& q.rest() == sp.0.body
            &&& md.v() == (MdV { ty: sp.0.ty, misc: sp.0.misc, sid: sp.0.sid })
        },
        Err(e) => err_ok(p0, e, sp.1),
    }
}

/// the largest amount a parser may allocate ahead of the data: what is left of the data where that is known,
/// and 16 KiB otherwise
pub open spec fn alloc_bound<'p, B: ParseBuf<'p>, E: Endian>(p: Parser<B, E>) -> int {
    if p.data.hinted() { p.rest().len() as int } else { 16384 }
}

// ---- bits -------------------------------------------------------------------------------------------------

pub open spec fn bit(x: u64, m: u64) -> bool { x & m == m }
pub open spec fn bit16(x: u16, m: u16) -> bool { x & m == m }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

/// 1 if flag k is set, otherwise 0. An int and not a bool, so that the solver reasons about it by equality alone
#[verifier::opaque]
pub open spec fn hb_u8(f: u8, k: u8) -> int { if f & (1u8 << k) != 0 { 1 } else { 0 } }
pub proof fn lemma_hb_u8(f: u8, k: u8)
    requires k < 8,
    ensures hb_u8(f | (1u8 << k), k) == 1,
        forall|j: u8| j < 8 && j != k ==> #[trigger] hb_u8(f | (1u8 << k), j) == hb_u8(f, j),
        hb_u8(f, k) == 0 || hb_u8(f, k) == 1,
{
    reveal(hb_u8);
    assert((f | (1u8 << k)) & (1u8 << k) != 0) by (bit_vector) requires k < 8;
    assert(forall|j: u8| j < 8 && j != k ==> (#[trigger] ((f | (1u8 << k)) & (1u8 << j)) != 0) == (f & (1u8 << j) != 0)) by (bit_vector) requires k < 8;
}
/// other ways of asking whether flag k is set
pub proof fn lemma_hb_forms_u8(f: u8, k: u8)
    requires k < 8,
    ensures (f & (1u8 << k) != 0) == ((f >> k) & 1u8 == 1), ((f >> k) & 1u8 == 0) || ((f >> k) & 1u8 == 1),
        (f & (1u8 << k) != 0) == (f & (1u8 << k) == 1u8 << k), f & (1u8 << k) == (1u8 << k) & f,
        (f & (1u8 << k) != 0) == (f & (1u8 << k) > 0), (f & (1u8 << k) != 0) == (f | (1u8 << k) == f),
        (f & (1u8 << k) != 0) == ((f >> k) % 2 == 1),
{
    assert((f & (1u8 << k) != 0) == ((f >> k) & 1u8 == 1)) by (bit_vector) requires k < 8;
    assert(((f >> k) & 1u8 == 0) || ((f >> k) & 1u8 == 1)) by (bit_vector) requires k < 8;
    assert((f & (1u8 << k) != 0) == (f & (1u8 << k) == 1u8 << k)) by (bit_vector) requires k < 8;
    assert(f & (1u8 << k) == (1u8 << k) & f) by (bit_vector) requires k < 8;
    assert((f & (1u8 << k) != 0) == (f | (1u8 << k) == f)) by (bit_vector) requires k < 8;
    assert((f & (1u8 << k) != 0) == ((f >> k) % 2 == 1)) by (bit_vector) requires k < 8;
}
pub proof fn lemma_hb0_u8()
    ensures forall|j: u8| #[trigger] hb_u8(0, j) == 0,
{
    reveal(hb_u8);
    assert(forall|j: u8| #[trigger] (0u8 & (1u8 << j)) == 0) by (bit_vector);
}
/// 1 if flag k is set, otherwise 0. An int and not a bool, so that the solver reasons about it by equality alone
#[verifier::opaque]
pub open spec fn hb_u32(f: u32, k: u32) -> int { if f & (1u32 << k) != 0 { 1 } else { 0 } }
pub proof fn lemma_hb_u32(f: u32, k: u32)
    requires k < 32,
    ensures hb_u32(f | (1u32 << k), k) == 1,
        forall|j: u32| j < 32 && j != k ==> #[trigger] hb_u32(f | (1u32 << k), j) == hb_u32(f, j),
        hb_u32(f, k) == 0 || hb_u32(f, k) == 1,
{
    reveal(hb_u32);
    assert((f | (1u32 << k)) & (1u32 << k) != 0) by (bit_vector) requires k < 32;
    assert(forall|j: u32| j < 32 && j != k ==> (#[trigger] ((f | (1u32 << k)) & (1u32 << j)) != 0) == (f & (1u32 << j) != 0)) by (bit_vector) requires k < 32;
}
/// other ways of asking whether flag k is set
pub proof fn lemma_hb_forms_u32(f: u32, k: u32)
    requires k < 32,
    ensures (f & (1u32 << k) != 0) == ((f >> k) & 1u32 == 1), ((f >> k) & 1u32 == 0) || ((f >> k) & 1u32 == 1),
        (f & (1u32 << k) != 0) == (f & (1u32 << k) == 1u32 << k), f & (1u32 << k) == (1u32 << k) & f,
        (f & (1u32 << k) != 0) == (f & (1u32 << k) > 0), (f & (1u32 << k) != 0) == (f | (1u32 << k) == f),
        (f & (1u32 << k) != 0) == ((f >> k) % 2 == 1),
{
    assert((f & (1u32 << k) != 0) == ((f >> k) & 1u32 == 1)) by (bit_vector) requires k < 32;
    assert(((f >> k) & 1u32 == 0) || ((f >> k) & 1u32 == 1)) by (bit_vector) requires k < 32;
    assert((f & (1u32 << k) != 0) == (f & (1u32 << k) == 1u32 << k)) by (bit_vector) requires k < 32;
    assert(f & (1u32 << k) == (1u32 << k) & f) by (bit_vector) requires k < 32;
    assert((f & (1u32 << k) != 0) == (f | (1u32 << k) == f)) by (bit_vector) requires k < 32;
    assert((f & (1u32 << k) != 0) == ((f >> k) % 2 == 1)) by (bit_vector) requires k < 32;
}
pub proof fn lemma_hb0_u32()
    ensures forall|j: u32| #[trigger] hb_u32(0, j) == 0,
{
    reveal(hb_u32);
    assert(forall|j: u32| #[trigger] (0u32 & (1u32 << j)) == 0) by (bit_vector);
}
#[verifier::opaque]
pub open spec fn or_b(a: int, b: int) -> int { if b == 0 { a } else { 1 } }
pub proof fn lemma_or0()
    ensures forall|a: int| #[trigger] or_b(a, 0) == a,
{
    reveal(or_b);
}
#[verifier::opaque]
pub open spec fn is_b<T>(x: Option<T>) -> int { if x is Some { 1 } else { 0 } }

// ---- MaybeUninit ------------------------------------------------------------------------------------------

pub open spec fn mu<T>(m: MaybeUninit<T>) -> T { m.as_option()->0 }
pub open spec fn mu_init<T>(m: MaybeUninit<T>) -> bool { m.as_option() is Some }
/// m is initialised if b is 1
#[verifier::opaque]
pub open spec fn init_mu<T>(b: int, m: MaybeUninit<T>) -> bool { b == 1 ==> mu_init(m) }
/// m has been dropped if b is 1
#[verifier::opaque]
pub open spec fn gone<T>(b: int, m: MaybeUninit<T>) -> bool { b == 1 ==> !mu_init(m) }
/// drops the value in m: once, and only if there is one
#[verifier::external_body]
pub fn vp_drop_field<T>(m: &mut MaybeUninit<T>)
    requires mu_init(*old(m)),
    ensures final(m).as_option() is None,
{ unsafe { m.assume_init_drop() } }
/// the value of m if b is 1
#[verifier::opaque]
pub open spec fn opt_mu<T>(b: int, m: MaybeUninit<T>) -> Option<T> { if b == 1 { Some(mu(m)) } else { None } }

/// the contents of the allocated but unused part of a vector
pub uninterp spec fn vec_spare<T>(v: Vec<T>) -> Seq<MaybeUninit<T>>;
/// `X.spare_capacity_mut()`
#[verifier::external_body]
pub fn vp_spare<T>(v: &mut Vec<T>) -> (r: &mut [MaybeUninit<T>])
    ensures r@.len() == vec_cap(*old(v)) - old(v)@.len(), final(v)@ == old(v)@, vec_cap(*final(v)) == vec_cap(*old(v)),
        vec_spare(*final(v)) == final(r)@
{ v.spare_capacity_mut() }
/// `X.set_len(n)`; what it makes part of the vector must be initialised
#[verifier::external_body]
pub fn vp_set_len<T>(v: &mut Vec<T>, n: usize)
    requires old(v)@.len() <= n <= vec_cap(*old(v)),
        forall|i: int| 0 <= i < n - old(v)@.len() ==> mu_init(#[trigger] vec_spare(*old(v))[i]),
    ensures final(v)@ == old(v)@ + Seq::new((n - old(v)@.len()) as nat, |i: int| mu(vec_spare(*old(v))[i]))
{ unsafe { v.set_len(n) } }
/// `copy_nonoverlapping(src.as_ptr(), dst, n)` where dst is the address of slice[at]
#[verifier::external_body]
pub fn vp_copy(src: &[u8], slice: &mut [MaybeUninit<u8>], at: usize, n: usize)
    requires n <= src@.len(), at + n <= old(slice)@.len(),
    ensures final(slice)@.len() == old(slice)@.len(),
        forall|i: int| 0 <= i < old(slice)@.len() ==> #[trigger] final(slice)@[i].as_option() ==
            (if at <= i < at + n { Some(src@[i - at]) } else { old(slice)@[i].as_option() })
{ unimplemented!() }
/// `array.align_to_mut().1`: the bytes of an array as bytes that may be uninitialised
#[verifier::external_body]
pub fn vp_as_uninit<const N: usize>(a: &mut [u8; N]) -> (r: &mut [MaybeUninit<u8>])
    ensures r@.len() == N,
        forall|i: int| #![trigger final(r)@[i]] #![trigger final(a)@[i]] 0 <= i < N ==> mu_init(final(r)@[i]) ==> final(a)@[i] == mu(final(r)@[i])
{ unimplemented!() }

// ---- reinterpreting bytes ----------------------------------------------------------------------------------

/// the value of a slice of T over these bytes
pub uninterp spec fn transmuted<T>(b: Seq<u8>) -> Seq<T>;
/// a T is k bytes, whatever they are
pub open spec fn flat<'p, T: Parse<'p>>(k: int) -> bool {
    &&& forall|s: Seq<u8>, c: Cfg| s.len() < k ==> (#[trigger] T::sp(s, c)).1 == err_st(ErrorKind::Eof)
    &&& forall|s: Seq<u8>, c: Cfg| s.len() >= k ==> #[trigger] T::sp(s, c) == (T::sp(s.subrange(0, k), c).0, ok_st(s.subrange(k, s.len() as int)))
}
/// parsing a T in the host's byte order gives the value that reinterpreting its bytes gives
#[verifier::opaque]
pub open spec fn zero_copy<'p, T: Parse<'p>>() -> bool {
    let k = vstd::layout::size_of::<T>() as int;
    &&& k > 0
    &&& flat::<T>(k)
    &&& forall|b: Seq<u8>, c: Cfg, i: int| c.big == host_big() && 0 <= i && i * k + k <= b.len() && b.len() % (k as nat) == 0
        ==> #[trigger] transmuted::<T>(b)[i].pv() == #[trigger] T::sp(b.subrange(i * k, i * k + k), c).0
}
pub proof fn lemma_rep_flat<'p, T: Parse<'p>>(b: Seq<u8>, c: Cfg, n: nat, k: int)
    requires flat::<T>(k), k > 0,
    ensures ({
        let r = rep::<T>(ok_st(b), c, n);
        if n * k <= b.len() {
            &&& r.0.len() == n
            &&& r.1 == ok_st(b.subrange(n * k, b.len() as int))
            &&& forall|i: int| 0 <= i < n ==> #[trigger] r.0[i] == T::sp(b.subrange(i * k, i * k + k), c).0
        } else { r.1 == err_st(ErrorKind::Eof) }
    }),
    decreases n,
{
    broadcast use {group_vp, group_seq};
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_rep_flat::<T>(b, c, m, k);
        assert(n * k == m * k + k) by (nonlinear_arith) requires n == m + 1;
        assert(0 <= m * k) by (nonlinear_arith) requires k > 0, m >= 0;
        if m * k <= b.len() {
            let t = b.subrange(m * k, b.len() as int);
            assert(t.len() == b.len() - m * k);
            if n * k <= b.len() {
                assert(t.subrange(0, k) == b.subrange(m * k, m * k + k));
                assert(t.subrange(k, t.len() as int) == b.subrange(n * k, b.len() as int));
                let r0 = rep::<T>(ok_st(b), c, m);
                let r = rep::<T>(ok_st(b), c, n);
                assert(T::sp(t, c) == (T::sp(t.subrange(0, k), c).0, ok_st(t.subrange(k, t.len() as int))));
                assert(r == (r0.0.push(T::sp(t, c).0), T::sp(t, c).1));
                assert forall|i: int| 0 <= i < n implies #[trigger] r.0[i] == T::sp(b.subrange(i * k, i * k + k), c).0 by {
                    assert(i * k + k <= n * k && 0 <= i * k) by (nonlinear_arith) requires 0 <= i < n, k > 0;
                    assert(i * k + k <= b.len());
                    if i < m { assert(r.0[i] == r0.0[i]); } else { assert(i == m); assert(r.0[i] == T::sp(t, c).0); }
                }
            }
        }
    }
}
pub proof fn lemma_zc_rep<'p, T: Parse<'p>>(b: Seq<u8>, c: Cfg, n: nat)
    requires zero_copy::<T>(), c.big == host_big(),
    ensures ({
        let k = vstd::layout::size_of::<T>() as int;
        let r = rep::<T>(ok_st(b), c, n);
        if n * k <= b.len() { r == (pvs(transmuted::<T>(b.subrange(0, n * k))), ok_st(b.subrange(n * k, b.len() as int))) }
        else { r.1 == err_st(ErrorKind::Eof) }
    }),
{
    reveal(zero_copy);
    broadcast use {group_vp, group_seq};
    let k = vstd::layout::size_of::<T>() as int;
    lemma_rep_flat::<T>(b, c, n, k);
    assert(0 <= n * k) by (nonlinear_arith) requires k > 0, n >= 0;
    if n * k <= b.len() {
        let d = b.subrange(0, n * k);
        axiom_transmuted_len::<T>(d);
        assert(d.len() == n * k);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n as int, k);
        assert((n * k) / k == n) by { assert(n * k == k * n) by (nonlinear_arith); }
        assert((n * k) % k == 0);
        assert forall|i: int| 0 <= i < n implies rep::<T>(ok_st(b), c, n).0[i] == pvs(transmuted::<T>(d))[i] by {
            assert(i * k + k <= n * k) by (nonlinear_arith) requires i + 1 <= n, k > 0;
            assert(0 <= i * k) by (nonlinear_arith) requires i >= 0, k > 0;
            assert(d.subrange(i * k, i * k + k) == b.subrange(i * k, i * k + k));
            let v = T::sp(d.subrange(i * k, i * k + k), c).0;
            assert(transmuted::<T>(d)[i].pv() == v);
        }
        assert(rep::<T>(ok_st(b), c, n).0 =~= pvs(transmuted::<T>(d)));
    }
}
/// `bytes.align_to()`
#[verifier::external_body]
pub fn vp_align_to<T>(b: &[u8]) -> (r: (&[u8], &[T], &[u8]))
    ensures
        b@.len() == 0 ==> r.0@.len() == 0 && r.2@.len() == 0,
        aligned_world() && vstd::layout::size_of::<T>() > 0 && b@.len() % vstd::layout::size_of::<T>() == 0
            ==> r.0@.len() == 0 && r.2@.len() == 0,
        r.0@.len() == 0 && r.2@.len() == 0 ==> r.1@ == transmuted::<T>(b@),
{ unsafe { b.align_to() } }
pub axiom fn axiom_transmuted_len<T>(b: Seq<u8>)
    requires vstd::layout::size_of::<T>() > 0,
    ensures transmuted::<T>(b).len() == b.len() / vstd::layout::size_of::<T>();
pub axiom fn axiom_layout_u64(b: Seq<u8>, i: int)
    requires 0 <= i, 8 * i + 8 <= b.len(),
    ensures #[trigger] transmuted::<u64>(b)[i] == dec64(host_big(), b.subrange(8 * i, 8 * i + 8));

pub proof fn lemma_zc_u64() ensures zero_copy::<u64>(), forall|s: Seq<u64>| #[trigger] pvs::<u64>(s) == s {
    assert forall|s: Seq<u64>| #[trigger] pvs::<u64>(s) == s by { assert(pvs::<u64>(s) =~= s); }
    reveal(zero_copy);
    broadcast use {group_vp, group_seq};
    assert forall|b: Seq<u8>, c: Cfg, i: int| c.big == host_big() && 0 <= i && i * 8 + 8 <= b.len()
        implies #[trigger] transmuted::<u64>(b)[i].pv() == #[trigger] u64::sp(b.subrange(i * 8, i * 8 + 8), c).0 by {
        axiom_layout_u64(b, i);
    }
}
pub open spec fn opt_ref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }

/// `X.iter().copied().all(|b| b == 0)`
#[verifier::external_body]
pub fn vp_all_zero(x: &[u8]) -> (r: bool)
    ensures r == !nonzero(x@)
{ unimplemented!() }
pub open spec fn nonzero(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] != 0 }

pub proof fn lemma_sid_ones(t: u64)
    ensures ones(t & 0x102c6) == b2i(bit(t, 0x2)) + b2i(bit(t, 0x4)) + b2i(bit(t, 0x40)) + b2i(bit(t, 0x80)) + b2i(bit(t, 0x200)) + b2i(bit(t, 0x10000))
{
    let x = t & 0x102c6;
    assert((x >> 0) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 1) & 1 == (if t & 0x2 == 0x2 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 2) & 1 == (if t & 0x4 == 0x4 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 3) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 4) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 5) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 6) & 1 == (if t & 0x40 == 0x40 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 7) & 1 == (if t & 0x80 == 0x80 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 8) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 9) & 1 == (if t & 0x200 == 0x200 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 10) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 11) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 12) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 13) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 14) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 15) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 16) & 1 == (if t & 0x10000 == 0x10000 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 17) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 18) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 19) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 20) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 21) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 22) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 23) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 24) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 25) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 26) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 27) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 28) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 29) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 30) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 31) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 32) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 33) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 34) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 35) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 36) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 37) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 38) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 39) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 40) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 41) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 42) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 43) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 44) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 45) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 46) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 47) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 48) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 49) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 50) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 51) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 52) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 53) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 54) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 55) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 56) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 57) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 58) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 59) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 60) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 61) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 62) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
    assert((x >> 63) & 1 == 0) by (bit_vector) requires x == t & 0x102c6;
}
pub proof fn lemma_elem_ones(t: u64)
    ensures ones(t & 0x14) == b2i(bit(t, 0x4)) + b2i(bit(t, 0x10))
{
    let x = t & 0x14;
    assert((x >> 0) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 1) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 2) & 1 == (if t & 0x4 == 0x4 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x14;
    assert((x >> 3) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 4) & 1 == (if t & 0x10 == 0x10 { 1u64 } else { 0 })) by (bit_vector) requires x == t & 0x14;
    assert((x >> 5) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 6) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 7) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 8) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 9) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 10) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 11) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 12) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 13) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 14) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 15) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 16) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 17) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 18) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 19) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 20) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 21) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 22) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 23) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 24) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 25) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 26) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 27) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 28) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 29) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 30) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 31) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 32) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 33) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 34) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 35) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 36) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 37) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 38) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 39) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 40) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 41) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 42) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 43) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 44) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 45) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 46) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 47) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 48) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 49) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 50) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 51) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 52) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 53) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 54) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 55) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 56) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 57) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 58) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 59) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 60) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 61) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 62) & 1 == 0) by (bit_vector) requires x == t & 0x14;
    assert((x >> 63) & 1 == 0) by (bit_vector) requires x == t & 0x14;
}

/// testing one of the bits of misc
pub proof fn lemma_mask16(m: u16)
    ensures (m & 0x4000u16 != 0) == bit16(m, 0x4000), (m & 0x2000u16 != 0) == bit16(m, 0x2000),
{
    assert((m & 0x4000u16 != 0) == (m & 0x4000u16 == 0x4000)) by (bit_vector);
    assert((m & 0x2000u16 != 0) == (m & 0x2000u16 == 0x2000)) by (bit_vector);
}

} // verus!
} // mod vp

// ---------------------------------------------------------------------------------------------------------
// Stand-in for core::fmt: what has been written, and the fields a debug_struct was given.
// ---------------------------------------------------------------------------------------------------------
pub mod stand {
/// std::error::Error, with the opaque box for `dyn Error`
pub mod error {
use vstd::prelude::*;
verus! {
pub trait Error {
    spec fn cause(&self) -> Option<crate::error::BoxedError>;
    fn source(&self) -> (r: Option<&crate::error::BoxedError>)
        ensures match (r, self.cause()) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false };
}
} // verus!
}
pub mod fmt {
use vstd::prelude::*;
use crate::util::fmt::{ByteStr, HexStr};
verus! {
pub struct Error;
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a mut ()> }
/// everything written so far
pub uninterp spec fn out(f: Formatter<'_>) -> Seq<char>;
/// the fields of the last struct shown
pub uninterp spec fn last_struct(f: Formatter<'_>) -> Seq<(Seq<char>, Shown)>;
/// how the value of a field is shown
pub enum Shown { Bytes(Seq<u8>), Hex(Seq<u8>), Other(int) }
pub uninterp spec fn shown<T: ?Sized>(v: &T) -> Shown;
/// these two show themselves as their own Debug says
pub broadcast axiom fn axiom_shown_bytes(v: &ByteStr<'_>) ensures #[trigger] shown::<ByteStr<'_>>(v) == Shown::Bytes(v.0@);
pub broadcast axiom fn axiom_shown_hex(v: &HexStr<'_>) ensures #[trigger] shown::<HexStr<'_>>(v) == Shown::Hex(v.0@);
pub broadcast group group_shown { axiom_shown_bytes, axiom_shown_hex, lemma_field_last, lemma_field_push }

/// one more field, if there is a reason for it
pub open spec fn maybe_field(fs: Seq<(Seq<char>, Shown)>, c: bool, name: Seq<char>, how: Shown) -> Seq<(Seq<char>, Shown)> {
    if c { fs.push((name, how)) } else { fs }
}
/// a struct was shown, with a field of that name shown like that
pub open spec fn shows_field(f: Formatter<'_>, name: Seq<char>, how: Shown) -> bool { has_field(last_struct(f), name, how) }
pub closed spec fn has_field(fs: Seq<(Seq<char>, Shown)>, name: Seq<char>, how: Shown) -> bool { fs.contains((name, how)) }
pub broadcast proof fn lemma_field_last(fs: Seq<(Seq<char>, Shown)>, name: Seq<char>, how: Shown)
    ensures #[trigger] has_field(fs.push((name, how)), name, how)
{ assert(fs.push((name, how))[fs.len() as int] == (name, how)); }
pub broadcast proof fn lemma_field_push(fs: Seq<(Seq<char>, Shown)>, x: (Seq<char>, Shown), name: Seq<char>, how: Shown)
    requires has_field(fs, name, how),
    ensures #[trigger] has_field(fs.push(x), name, how)
{
    let i = choose|i: int| 0 <= i < fs.len() && fs[i] == (name, how);
    assert(fs.push(x)[i] == (name, how));
}

pub trait Write: Sized {
    spec fn written(&self) -> Seq<char>;
    fn write_char(&mut self, c: char) -> (r: Result)
        ensures r is Ok ==> final(self).written() == old(self).written().push(c);
}
impl<'a> Write for Formatter<'a> {
    open spec fn written(&self) -> Seq<char> { out(*self) }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: Result) { unimplemented!() }
}
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result)
        ensures r is Ok ==> out(*final(self)) == out(*old(self)) + s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_struct<'b>(&'b mut self, name: &str) -> (r: DebugStruct<'b, 'a>)
        ensures fields(r) == Seq::<(Seq<char>, Shown)>::empty(), fin(r) == *final(self)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DebugStruct<'b, 'a> { _p: &'b mut Formatter<'a> }
/// the fields given so far
pub uninterp spec fn fields(d: DebugStruct<'_, '_>) -> Seq<(Seq<char>, Shown)>;
/// the formatter when the borrow ends
pub uninterp spec fn fin<'b, 'a>(d: DebugStruct<'b, 'a>) -> Formatter<'a>;
impl<'b, 'a> DebugStruct<'b, 'a> {
    #[verifier::external_body]
    pub fn field<T: ?Sized>(&mut self, name: &str, v: &T) -> (r: &mut Self)
        ensures fields(*r) == fields(*old(self)).push((name@, shown(v))), fin(*r) == fin(*old(self)), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result)
        ensures r is Ok ==> last_struct(fin(*old(self))) == fields(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_non_exhaustive(&mut self) -> (r: Result)
        ensures r is Ok ==> last_struct(fin(*old(self))) == fields(*old(self))
    { unimplemented!() }
}
pub trait UpperHex {}
pub trait Display {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok ==> out(*final(f)) == out(*old(f)) + self.shown();
}
pub trait Debug {
    /// what showing it may do to the formatter
    spec fn dbg(&self, a: Formatter<'_>, b: Formatter<'_>) -> bool;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok ==> self.dbg(*old(f), *final(f));
}

// ---- text ------------------------------------------------------------------------------------------------
pub enum Seg {
    /// valid UTF-8, shown by char::escape_debug
    Text(Seq<u8>),
    /// any bytes, shown by u8::escape_ascii
    Raw(Seq<u8>),
}
pub open spec fn seg_bytes(s: Seg) -> Seq<u8> { match s { Seg::Text(b) => b, Seg::Raw(b) => b } }
pub open spec fn seg_ok(s: Seg) -> bool { match s { Seg::Text(b) => crate::vp::utf8(b), Seg::Raw(b) => true } }
pub open spec fn seg_out(s: Seg) -> Seq<char> { match s { Seg::Text(b) => crate::vp::esc_text(b), Seg::Raw(b) => crate::vp::as_chars(crate::vp::esc_ascii(b)) } }
pub open spec fn segs_bytes(s: Seq<Seg>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { segs_bytes(s.drop_last()) + seg_bytes(s.last()) } }
pub open spec fn segs_out(s: Seq<Seg>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { segs_out(s.drop_last()) + seg_out(s.last()) } }
/// the segments, each shown in its way, make up the bytes: the escapes of the standard library can be undone, and
/// those of text and of other bytes cannot be confused
pub open spec fn escapes(s: Seq<Seg>, b: Seq<u8>) -> bool {
    segs_bytes(s) == b && (forall|i: int| 0 <= i < s.len() ==> seg_ok(#[trigger] s[i]))
}
pub open spec fn quoted(a: Seq<char>, b: Seq<char>, data: Seq<u8>) -> bool {
    exists|s: Seq<Seg>| #[trigger] escapes(s, data) && b == (a.push('"') + segs_out(s)).push('"')
}
pub proof fn lemma_seg_push(s: Seq<Seg>, x: Seg, b: Seq<u8>)
    requires escapes(s, b), seg_ok(x),
    ensures escapes(s.push(x), b + seg_bytes(x)), segs_out(s.push(x)) == segs_out(s) + seg_out(x),
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.push(x).last() == x);
}

// ---- hex -------------------------------------------------------------------------------------------------
pub open spec fn hex_val(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 }
    else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else { -1 }
}
/// two hex digits for each byte, in order
pub open spec fn hexed(a: Seq<char>, b: Seq<char>, data: Seq<u8>) -> bool {
    &&& b.len() == a.len() + 2 * data.len()
    &&& a.is_prefix_of(b)
    &&& forall|i: int| 0 <= i < data.len() ==> hex_at(b, a.len() as int, i, #[trigger] data[i])
}
pub open spec fn hex_at(b: Seq<char>, n: int, i: int, x: u8) -> bool {
    hex_val(b[n + 2 * i]) == x as int / 16 && hex_val(b[n + 2 * i + 1]) == x as int % 16
}
} // verus!
}
}
