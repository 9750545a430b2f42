"""Packet accessors stay inside the packet's bytes."""
from ..bounds import *

RULE = ('For every public operation of the packet class, assuming cursor <= size on entry: every copy/subscript whose pointer leads into '
        'the packet bytes or into a caller buffer of stated length is inside it on every path (relational numeric domain, modular '
        'arithmetic where a result may wrap), cursor <= size again on every exit, a read that fails leaves the cursor at or before the '
        'end, and a successful raw read advances the cursor by exactly the bytes copied.')
LEVEL = 'proof'
ASSUMES = ['a caller-supplied pointer addresses as many bytes as the length passed with it',
           'a packet is used by one thread at a time']
MIN = {'bounds': 4, 'cursor invariant': 8, 'advance': 2}
CLS = 'plain::net::packet::Basic'


class R(Bounds):
    def init(self, st, fr):
        st.facts = st.facts.assume(ge0(sub(st.read(SIZE), st.read(OFF))))

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        d = sub(st.read(SIZE), st.read(OFF))
        self.cx.check(st.facts.prove_ge0(d) and st.facts.prove_ge0(st.read(OFF)), 'cursor invariant', short(fr.fn) + sig(fr.fn), fr.fn.where(),
                      'cursor may lie beyond the stored bytes on exit: size-cursor = %s' % val_str(d),
                      st.trace_list())


def sig(fn): return '(' + ','.join(p['t'] for p in fn.params) + ')'


def impl_loc():
    return ('d', ('ld', ('f', ('f', ('d', ('sym', 'this')), 'impl_'), '#p')))


def run(cx):
    global SIZE, OFF
    p = cx.p
    impl = impl_loc()
    rec = p.record(CLS + '::Impl')
    if rec is None: raise AnalysisError('packet implementation record not found')
    data = off = None
    for f in rec['fields']:
        t = strip_t(f['t'])
        if 'basic_string' in t or 'bytes_t' in t or 'vector' in t: data = f['name']
        elif f['t'] in ('size_t', 'unsigned long', 'std::size_t'): off = f['name']
    if not data or not off: raise AnalysisError('packet bytes/cursor members not found')
    D = ('f', impl, data); SIZE = ('f', D, '#size'); OFF = ('f', impl, off)
    SYMW[('ld', SIZE)] = 64; SYMW[('ld', OFF)] = 64

    def extent(st, fr, reg):
        if reg == D: return st.read(SIZE)
        if reg[0] == 'ptr' and reg[1][0] == 'prm':
            # a caller buffer: (pointer, length) parameter pair
            ps = root(fr).fn.params
            if len(ps) == 2 and 'w' in ps[1] and ps[0]['name'] == reg[1][1]: return ('prm', ps[1]['name'])
        return None

    def root(fr):
        while fr.parent: fr = fr.parent
        return fr
    inl = lambda fn: fn.scls in (CLS, CLS + '::Impl') or fn.sq.startswith('plain::ntoh') or fn.sq.startswith('plain::hton')
    fns = [f for f in p.all() if f.scls == CLS and f.acc == 0 and not f.ctor and not f.dtor and f.blocks]
    if len(fns) < 15: raise AnalysisError('only %d public packet operations' % len(fns))
    for fn in fns:
        r = R(cx, extent)
        e = cx.engine([r], inline=inl, wrap=True, merge_at=64)
        outs = cx.run(e, fn)
        if fn.name == 'read' and len(fn.params) == 2 and fn.params[0]['t'].endswith('*'):
            for st, rv, how in outs:
                if how != 'ret': continue
                rv = rv if rv and rv[0] != 'lv' else c(0)
                adv = sub(st.read(OFF), ('ld', OFF))
                cx.check(is_c(sub(adv, rv)) and sub(adv, rv)[1] == 0 or st.facts.truth(eq0(sub(adv, rv))) is True,
                         'advance', short(fn) + sig(fn) + '#%s' % val_str(rv), fn.where(),
                         'the cursor moves by %s but the call reports %s bytes' % (val_str(adv), val_str(rv)), st.trace_list())
