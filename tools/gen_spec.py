#!/usr/bin/env python3
"""Writes the regular parts of the overlay: the fixed records and the optional-field structs.

The layouts below are written from the kernel's perf_event.h, not from the crate."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'spec', '20_generated.vo')
o = []
w = o.append
w('#! generated by tools/gen_spec.py')

# ---- records: (name, lifetime?, [(field, kind)]) kind: u8/u16/u32/u64, a spec type, 'trim', or T(type,viewtype)
FIX = {
    'Exit': ('exit', False, [('pid', 'u32'), ('ppid', 'u32'), ('tid', 'u32'), ('ptid', 'u32'), ('time', 'u64')]),
    'Lost': ('lost', False, [('id', 'u64'), ('lost', 'u64')]),
    'LostSamples': ('lost_samples', False, [('lost', 'u64')]),
    'Throttle': ('throttle', False, [('time', 'u64'), ('id', 'u64'), ('stream_id', 'u64')]),
    'ITraceStart': ('itrace_start', False, [('pid', 'u32'), ('tid', 'u32')]),
    'AuxOutputHwId': ('aux_output_hw_id', False, [('hw_id', 'u64')]),
    'Aux': ('aux', False, [('aux_offset', 'u64'), ('aux_size', 'u64'), ('flags', 'u64:self.flags.0')]),
    'BpfEvent': ('bpf_event', False, [('ty', 'u16:self.ty.0'), ('flags', 'u16'), ('id', 'u32'), ('tag', '[u8; 8]')]),
    'NamespaceEntry': ('namespaces', False, [('dev', 'u64'), ('inode', 'u64')]),
    'Comm': ('comm', True, [('pid', 'u32'), ('tid', 'u32'), ('comm', 'trim')]),
    'CGroup': ('cgroup', True, [('id', 'u64'), ('path', 'trim')]),
    'KSymbol': ('ksymbol', True, [('addr', 'u64'), ('len', 'u32'), ('ksym_type', 'u16:self.ksym_type.0'),
                                  ('flags', 'u16:self.flags.0'), ('name', 'trim')]),
    'Mmap': ('mmap', True, [('pid', 'u32'), ('tid', 'u32'), ('addr', 'u64'), ('len', 'u64'), ('pgoff', 'u64'),
                            ('filename', 'trim')]),
}
VIEW = {'trim': 'Seq<u8>', '[u8; 8]': 'Seq<u8>'}
for name, (mod, lt, fields) in FIX.items():
    vn = name + 'V'
    w(f'=== module records::{mod}')
    w(f'pub struct {vn} {{ ' + ', '.join(f'pub {f}: {VIEW.get(k.split(":")[0], k.split(":")[0])}' for f, k in fields) + ' }')
    self_ty = name
    w(f'=== impl {name} as Parse')
    w(f'    type V = {vn};')
    w('    open spec fn al() -> bool { false }')
    vals = []
    for f, k in fields:
        if ':' in k:
            vals.append(f'{f}: {k.split(":")[1]}')
        elif k == 'trim':
            vals.append(f'{f}: cowv(self.{f})')
        elif k == '[u8; 8]':
            vals.append(f'{f}: self.{f}@')
        else:
            vals.append(f'{f}: self.{f}')
    w(f'    open spec fn pv(&self) -> {vn} {{ {vn} {{ ' + ', '.join(vals) + ' } }')
    w(f'    closed spec fn sp(s: Seq<u8>, c: Cfg) -> ({vn}, St) {{')
    w('        let st = ok_st(s);')
    for f, k in fields:
        k = k.split(':')[0]
        if k == 'trim':
            w(f'        let ({f}, st) = take_trim(st);')
        else:
            w(f'        let ({f}, st) = run::<{k}>(st, c);')
    w(f'        ({vn} {{ ' + ', '.join(f for f, _ in fields) + ' }, st)')
    w('    }')

# ---- newtypes around an integer
for name, ty in [('AuxFlags', 'u64'), ('BpfEventType', 'u16'), ('KSymbolType', 'u16'), ('KSymbolFlags', 'u16'),
                 ('SampleRegsAbi', 'u64'), ('Txn', 'u64')]:
    w(f'=== impl {name} as Parse')
    w(f'    type V = {ty};')
    w('    open spec fn al() -> bool { false }')
    w(f'    open spec fn pv(&self) -> {ty} {{ self.0 }}')
    w(f'    closed spec fn sp(s: Seq<u8>, c: Cfg) -> ({ty}, St) {{ run::<{ty}>(ok_st(s), c) }}')
    w(f'=== fn {name} as Parse::parse')
    w('--- start')
    w(f'    assert(<Self as crate::parse::Parse>::sp(p.rest(), p.cfg()) == run::<{ty}>(ok_st(p.rest()), p.cfg()));')
    w(f'    assert(forall|x: Self| #[trigger] x.pv() == x.0); // neutral')
for name, ty in [('BpfEventType', 'u16'), ('KSymbolType', 'u16'), ('SampleRegsAbi', 'u64'), ('BranchType', 'u8'),
                 ('AuxPmuFormatType', 'u8')]:
    w(f'=== fn {name}::new')
    w('--- ret r')
    w('--- spec')
    w('    ensures r.0 == value,')

# ---- option structs
SID = [('pid', 'u32'), ('tid', 'u32'), ('time', 'u64'), ('id', 'u64'), ('stream_id', 'u64'), ('cpu', 'u32')]
SAMPLE = [('ip', 'u64'), ('pid', 'u32'), ('tid', 'u32'), ('time', 'u64'), ('addr', 'u64'), ('id', 'u64'),
          ('stream_id', 'u64'), ('cpu', 'u32'), ('period', 'u64'), ('values', "ReadGroup<'a>"),
          ('callchain', "Cow<'a, [u64]>"), ('raw', "Cow<'a, [u8]>"), ('lbr_hw_index', 'u64'),
          ('lbr', "Cow<'a, [BranchEntry]>"), ('regs_user', "Registers<'a>"), ('stack_user', "Cow<'a, [u8]>"),
          ('weight', 'u64'), ('data_src', 'DataSource'), ('transaction', 'Txn'), ('regs_intr', "Registers<'a>"),
          ('phys_addr', 'u64'), ('aux', "Cow<'a, [u8]>"), ('cgroup', 'u64'), ('data_page_size', 'u64'),
          ('code_page_size', 'u64')]
def vt(t):
    if t.startswith('Cow'):
        inner = t[t.index('[') + 1:t.index(']')]
        return {'u64': 'Seq<u64>', 'u8': 'Seq<u8>', 'BranchEntry': 'Seq<BranchV>'}[inner]
    return {"ReadGroup<'a>": 'GroupV', "Registers<'a>": 'RegsV', 'DataSource': 'u64', 'Txn': 'u64'}.get(t, t)
def vexpr(e, t):
    if t.startswith('Cow'):
        return f'pvs(cowv({e}))' if 'Branch' in t else f'cowv({e})'
    if t in ("ReadGroup<'a>", "Registers<'a>"):
        return f'{e}.gv()'
    if t == 'DataSource':
        return f'{e}.0.val'
    if t == 'Txn':
        return f'{e}.0'
    return e
def same(f, t):
    """the field f of r is that of self"""
    if vexpr('x', t) == 'x':
        return f'r.g_{f}() == self.g_{f}()'
    return f'match (r.g_{f}(), self.g_{f}()) {{ (Some(x), Some(y)) => {vexpr("x", t)} == {vexpr("y", t)}, (None, None) => true, _ => false }}'
def optstruct(mod, name, flag, fields, modpath):
    k0 = f'{mod}::{name}'
    w(f'=== impl {k0}')
    w('    /// a field whose flag is set is initialised')
    w('    pub open spec fn wf(&self) -> bool {')
    for f, t in fields:
        w(f'        &&& init_mu(hb_{flag}(self.__flags, Offsets::{f}), self.{f})')
    w('    }')
    for f, t in fields:
        w(f'    pub open spec fn g_{f}(&self) -> Option<{t}> {{ opt_mu(hb_{flag}(self.__flags, Offsets::{f}), self.{f}) }}')
    for f, t in fields:
        v = 'crate::util::fmt::HexAddr(&x)' if f in ('addr', 'phys_addr') else 'x'
        w(f'    pub open spec fn vp_name_{f}() -> Seq<char> {{ "{f}"@ }}')
        w(f'    pub open spec fn vp_how_{f}(x: {t}) -> crate::stand::fmt::Shown {{ crate::stand::fmt::shown(&{v}) }}')
    w(f'    pub open spec fn shows(&self) -> Seq<(Seq<char>, crate::stand::fmt::Shown)> {{')
    w('        let s = Seq::empty();')
    for f, t in fields:
        w(f'        let s = crate::stand::fmt::maybe_field(s, self.g_{f}() is Some, Self::vp_name_{f}(), Self::vp_how_{f}(self.g_{f}()->0));')
    w('        s')
    w('    }')
    # each match is a function of its own: 25 of them are too much for one query
    w(f'=== fn {k0}::new')
    w('--- ret r')
    w('--- spec')
    w('    ensures r.wf(),')
    for f, t in fields:
        w(f'        r.g_{f}() == {f},')
    w('--- matches outline')
    w('__flags => vp_f')
    w(f"fn vp_put_$X<'a>($X: Option<$T>, vp_f: &mut {flag}) -> (vp_m: ::std::mem::MaybeUninit<$T>)")
    w('    ensures ' + ' '.join(f'Offsets::$X != {i} ==> hb_{flag}(*final(vp_f), {i}) == hb_{flag}(*old(vp_f), {i}),' for i in range(len(fields))))
    w(f'        hb_{flag}(*final(vp_f), Offsets::$X) == or_b(is_b($X), hb_{flag}(*old(vp_f), Offsets::$X)),')
    w('        init_mu(is_b($X), vp_m), opt_mu(is_b($X), vp_m) == $X,')
    w('---')
    w('proof {')
    w('    reveal(init_mu); reveal(opt_mu); reveal(is_b); reveal(or_b);')
    w(f'    lemma_hb_{flag}(*vp_f, Offsets::$X);')
    w('}')
    w('--- tail')
    w(f'    lemma_hb0_{flag}(); lemma_or0();')
    for f, t in fields:
        w(f'    assert(hb_{flag}(r.__flags, Offsets::{f}) == is_b({f}));')
    w(f'=== impl {k0} as Clone')
    w(f'=== inherent {k0} as Clone : vp_clone')
    w(f'=== fn {k0} as Clone::clone')
    w('--- ret r')
    w('--- spec')
    w('    requires self.wf(),')
    w('    ensures r.wf(),')
    for f, t in fields:
        w(f'        {same(f, t)},')
    w(f'=== impl {k0} as Default')
    w(f'=== fn {k0} as Default::default')
    w('--- ret r')
    w('--- spec')
    w('    ensures r.wf(),')
    for f, t in fields:
        w(f'        r.g_{f}() is None,')
    w('--- tail')
    w(f'    reveal(init_mu); reveal(opt_mu); lemma_hb0_{flag}();')
    # Debug shows what is there, in order, and nothing else; addresses in hex
    w(f'=== impl {k0} as Debug')
    w(f'=== inherent {k0} as Debug')
    w(f'=== fn {k0} as Debug::fmt')
    w('--- ret r')
    w('--- spec')
    w('    requires self.wf(),')
    w('    ensures r is Ok ==> crate::stand::fmt::last_struct(*final(f)) == self.shows(),')
    lt = "<'a>" if name == 'Sample' else ''
    w('--- ifs')
    w(f"__flags => impl{lt} {name}{lt} => &mut $D")
    w("pub fn vp_show_$TAG(&self, $D: &mut fmt::DebugStruct<'_, '_>)")
    w(f'    requires self.wf(),')
    w(f'    ensures crate::stand::fmt::fin(*final($D)) == crate::stand::fmt::fin(*old($D)),')
    w(f'        crate::stand::fmt::fields(*final($D)) == crate::stand::fmt::maybe_field(crate::stand::fmt::fields(*old($D)), self.g_$X() is Some, {name}::vp_name_$X(), {name}::vp_how_$X(self.g_$X()->0)),')
    if name == 'Sample':
        w(f'=== impl {k0} as Drop')
        w(f'=== inherent {k0} as Drop : vp_drop')
        w(f'=== fn {k0} as Drop::drop')
        w('--- spec')
        w('    requires old(self).wf(),')
        w('    ensures')
        for f, t in fields:
            w(f'        gone(hb_{flag}(old(self).__flags, Offsets::{f}), final(self).{f}),')
        w('--- ifs')
        w(f"__flags => impl<'a> {name}<'a>")
        w("pub fn vp_drop_$TAG(&mut self)")
        w(f'    requires init_mu(hb_{flag}(old(self).__flags, Offsets::$X), old(self).$X),')
        w(f'    ensures gone(hb_{flag}(old(self).__flags, Offsets::$X), final(self).$X), *final(self) == ({name} {{ $X: final(self).$X, ..*old(self) }}),')
        w('---')
        w(f'proof {{ reveal(hb_{flag}); reveal(init_mu); reveal(gone); lemma_hb_forms_{flag}(self.__flags, Offsets::$X); }}')
    for f, t in fields:
        w(f'=== fn {k0}::{f}')
        w('--- ret r')
        w('--- spec')
        w('    requires self.wf(),')
        w(f'    ensures r == (match self.g_{f}() {{ Some(x) => Some(&x), None => None }}),')
        w('--- start')
        w(f'    proof {{ reveal(hb_{flag}); reveal(init_mu); reveal(opt_mu); lemma_hb_forms_{flag}(self.__flags, Offsets::{f}); }}')
optstruct('sample_id', 'SampleId', 'u8', SID, 'records::sample_id')
w('=== module records::sample_id')
w('/// stands for the Clone bound of Copy; the body of the impl in the source is verified as vp_clone')
w('impl Clone for SampleId { fn clone(&self) -> (r: Self) ensures r == *self { *self } }')
w('=== derived records SampleId as Default')
w('=== impl SampleId as Default')
w('=== fn SampleId as Default::default')
w('--- ret r')
w('--- spec')
w('    ensures r.0.wf(), r.v() == (SampleIdV { wf: true, ' + ', '.join(f'{f}: None' for f, _ in SID) + ' }),')
for mod, n in (('records::read', 'ReadGroup'), ('records::sample', 'Registers')):
    w(f'=== derived {mod} {n} as Clone')
    w(f'=== impl {n} as Clone')
    w(f'=== fn {n} as Clone::clone')
    w('--- ret r')
    w('--- spec')
    w('    ensures r.gv() == self.gv(),')
    w('--- start')
    w('    proof { broadcast use axiom_cow_ref; }')
optstruct('sample_impl', 'Sample', 'u32', SAMPLE, 'records::sample::sample_impl')

# views of the two
w('=== module records')
w('pub struct SampleIdV { pub wf: bool, ' + ', '.join(f'pub {f}: Option<{t}>' for f, t in SID) + ' }')
w('=== impl SampleId')
w('    pub open spec fn v(&self) -> SampleIdV { SampleIdV { wf: self.0.wf(), ' + ', '.join(f'{f}: self.0.g_{f}()' for f, _ in SID) + ' } }')
for f, t in SID:
    w(f'=== fn SampleId::{f}')
    w('--- ret r')
    w('--- spec')
    w('    requires self.0.wf(),')
    w(f'    ensures r == self.v().{f},')
w('=== module records::sample')
w('pub struct SampleV { pub wf: bool, ' + ', '.join(f'pub {f}: Option<{vt(t)}>' for f, t in SAMPLE) + ' }')
w("=== impl Sample")
w('    pub open spec fn v(&self) -> SampleV { SampleV { wf: self.0.wf(),')
for f, t in SAMPLE:
    if vexpr('x', t) == 'x':
        w(f'        {f}: self.0.g_{f}(),')
    else:
        w(f'        {f}: match self.0.g_{f}() {{ Some(x) => Some({vexpr("x", t)}), None => None }},')
w('    } }')
for f, t in SAMPLE:
    w(f'=== fn Sample::{f}')
    w('--- ret r')
    w('--- spec')
    w('    requires self.0.wf(),')
    if t.startswith('Cow'):
        e = 'pvs(x@)' if 'Branch' in t else 'x@'
        w(f'    ensures self.v().{f} == (match r {{ Some(x) => Some({e}), None => None }}),')
    elif t in ("ReadGroup<'a>", "Registers<'a>"):
        w(f'    ensures self.v().{f} == (match r {{ Some(x) => Some(x.gv()), None => None }}),')
    elif t in ('DataSource', 'Txn'):
        w(f'    ensures self.v().{f} == (match r {{ Some(x) => Some({vexpr("x", t)}), None => None }}),')
    else:
        w(f'    ensures r == self.v().{f},')
open(OUT, 'w').write('\n'.join(o) + '\n')
