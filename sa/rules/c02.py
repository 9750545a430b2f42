"""Packet read/write switches."""
from ..bounds import *
from .c01 import impl_loc, sig, CLS

RULE = ('The packet flag word is a finite quantity (one byte): the transfer function of every switch (set_*) and the test of every query '
        '(is_call_*) is extracted as a term over it and compared over all 256 values: turning a switch on or off affects exactly its own '
        'query/permission. Every path of a read/write operation that changes the bytes, moves the cursor or copies bytes out must be '
        'guarded so that no flag value with the switch off satisfies its path conditions.')
LEVEL = 'proof'
MIN = {'guard': 7, 'switch': 40}


class Eff:
    """Record path conditions at every effect on the packet."""

    def __init__(self, data, off):
        self.data, self.off, self.hits = data, off, []

    def hit(self, st, fr, what, line): self.hits.append((st.facts, what, fr.fn.where(line), st.trace_list()))

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if loc == self.data and op not in ('size', 'empty', 'data', 'ctor', 'begin', 'end') and not op.startswith('const:'):
            self.hit(st, fr, 'changes the stored bytes', call.line)

    def on_write(self, st, fr, loc, v, line, init):
        if loc == self.off and v is not None and v != ('ld', self.off): self.hit(st, fr, 'moves the read cursor', line)

    def on_call(self, st, fr, call):
        if call.name in ('memcpy', 'memmove', 'append', 'insert', 'assign') and len(call.args) >= 2:
            for a in call.args:
                from ..bounds import split
                v = models.rv(self.eng, st, fr, a)
                sp = split(v) if v else None
                if sp and sp[0] == self.data: self.hit(st, fr, 'copies stored bytes out', call.line)


def run(cx):
    p = cx.p
    impl = impl_loc()
    rec = p.record(CLS + '::Impl')
    if rec is None: raise AnalysisError('packet implementation record not found')
    data = off = flag = None
    for f in rec['fields']:
        t = strip_t(f['t'])
        if 'basic_string' in t or 'bytes_t' in t or 'vector' in t: data = ('f', impl, f['name'])
        elif f['t'] in ('size_t', 'unsigned long', 'std::size_t'): off = ('f', impl, f['name'])
        elif f['t'] in ('uint8_t', 'unsigned char', 'std::uint8_t', 'uint16_t', 'uint32_t', 'unsigned int', 'unsigned short'):
            if 'id' not in f['name']: flag = ('f', impl, f['name'])
    if not (data and off and flag): raise AnalysisError('packet members not found')
    FL = ('ld', flag)
    SYMW[FL] = 8
    inl = lambda fn: fn.scls in (CLS, CLS + '::Impl')
    dom = range(256)

    def meth(n): 
        return [f for f in p.need(CLS + '::' + n)]
    # ---- transfer functions of the switches ----
    names = ['readable', 'writeable', 'call_request', 'call_response', 'call_notify']
    trans = {}
    for n in names:
        fn = meth('set_' + n)[0]
        e = cx.engine([], inline=inl)
        outs = cx.run(e, fn)
        par = ('prm', fn.params[0]['name'])
        for on in (0, 1):
            tbl = {}
            for fl in dom:
                env = {FL: fl, par: on}
                res = set()
                for st, rv, how in outs:
                    if how != 'ret' or not facts_allow(st.facts, env): continue
                    v = evalt(st.read(flag), env)
                    if v is None: raise AnalysisError('cannot evaluate the flag word after set_%s: %s' % (n, val_str(st.read(flag))))
                    res.add(v & 0xff)
                if len(res) != 1: raise AnalysisError('set_%s(%d): flag word has %d outcomes' % (n, on, len(res)))
                tbl[fl] = res.pop()
            trans[n, on] = (tbl, fn)
    # ---- permissions: which flag values let an operation take effect ----
    eff = {}

    def permit(fn):
        """flag values for which fn can have an effect on the packet"""
        r = Eff(data, off)
        e = cx.engine([r], inline=inl)
        st = State()
        cx.run(e, fn, st=st)
        s = set()
        for facts, what, where, tr in r.hits:
            s |= {fl for fl in dom if facts_allow(facts, {FL: fl})}
        return s, r.hits
    reads = [f for f in meth('read')]
    writes = [f for f in meth('write')]
    if len(reads) < 3 or len(writes) < 4: raise AnalysisError('packet read/write overloads missing')
    qry = {}
    for n in names[2:]:
        fn = meth('is_' + n)[0]
        e = cx.engine([], inline=inl)
        s = set()
        for fl in dom:
            pass
        for st, rv, how in cx.run(e, fn):
            t = truthy(rv)
            for fl in dom:
                if not facts_allow(st.facts, {FL: fl}): continue
                v = evalt(t, {FL: fl})
                if v is None: raise AnalysisError('cannot evaluate is_%s: %s' % (n, val_str(t)))
                if v: s.add(fl)
        qry[n] = s
    for kind, fns in (('readable', reads), ('writeable', writes)):
        perm = None
        for fn in fns:
            s, hits = permit(fn)
            inst = short(fn) + sig(fn)
            if not hits: raise AnalysisError('no effect found in ' + fn.q)
            off_tbl, on_tbl = trans[kind, 0][0], trans[kind, 1][0]
            badv = [fl for fl in dom if off_tbl[fl] in s]
            h = hits[0]
            cx.check(not badv, 'guard', inst, h[2],
                     '%s although the packet was made not %s (flag word 0x%02x)' % (h[1], kind, off_tbl[badv[0]] if badv else 0), h[3])
            dead = [fl for fl in dom if on_tbl[fl] not in s]
            cx.check(not dead, 'enabled', inst, fn.where(), 'has no effect although the packet was made %s' % kind)
            qry.setdefault(kind, set(dom))
            qry[kind] &= s
    # ---- each switch changes its own permission/query only ----
    for n in names:
        for on in (0, 1):
            tbl, fn = trans[n, on]
            for m in names:
                badv = []
                for fl in dom:
                    before, after = fl in qry[m], tbl[fl] in qry[m]
                    want = bool(on) if m == n else before
                    if after != want: badv.append(fl)
                cx.check(not badv, 'switch', 'set_%s(%s) on %s' % (n, bool(on), m), fn.where(),
                         'set_%s(%s) %s (flag word 0x%02x -> 0x%02x)' % (
                             n, bool(on), 'does not take effect' if m == n else 'changes the %s state' % m,
                             badv[0] if badv else 0, tbl[badv[0]] if badv else 0))
