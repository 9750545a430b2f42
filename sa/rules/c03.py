"""Decoding untrusted RPC bytes never leaves the buffer and never hides a shortage."""
from ..bounds import *
from ..lib import callees
from . import c04

RULE = ('Every decoding operation (each overload and the template instances of drivers/rpc.cc) is abstractly executed on a buffer of '
        'arbitrary length and content with the cursor anywhere in it: every dereference and every [first,last) range taken from the buffer '
        'is inside it, the cursor is inside it again on exit, an error recorded before is still recorded on exit, and with an error '
        'recorded no further sequence element is decoded unless the announced count is bounded by the bytes present. Every proper prefix of '
        'every scalar / length-header encoding the encoder can produce must leave an error recorded. Elements copied into a fixed '
        'std::array are bounded by its extent.')
LEVEL = 'proof'
ASSUMES = ['the constructor arguments describe a readable byte range', 'user supplied pack() members use only the public operations',
           'adding a decoded 32 bit length to a buffer pointer does not wrap the 64 bit address space']
MIN = {'in buffer': 2, 'cursor invariant': 15, 'error sticky': 15, 'truncation': 15, 'elements stop': 1, 'array extent': 1}
UP = 'plain::net::rpc::Unpacker'
NS = 'plain::net::rpc::'
B = ('g', '#wire')
BASE = ('addr', ('i', B, FALSE))
N = ('sym', '#n'); O = ('sym', '#o')
U = ('d', ('sym', 'this'))


class R(Bounds):
    def on_call(self, st, fr, call):
        Bounds.on_call(self, st, fr, call)
        A = call.args
        nm = call.name
        nodes = fr.fn.nodes
        ptr = lambda i: nodes[call.anodes[i]].get('t', '').endswith('*')
        if len(A) >= 2 and (nm in ('basic_string', 'vector', 'assign', 'append', 'copy', 'span', 'basic_string_view', 'insert')) and call.q.startswith('std::'):
            k = 1 if nm == 'insert' else 0
            if len(A) > k + 1 and ptr(k) and ptr(k + 1):
                a, b = models.rv(self.eng, st, fr, A[k]), models.rv(self.eng, st, fr, A[k + 1])
                self.access(st, fr, a, sub(b, a), 'range', call.line)
        if nm in ('copy', 'copy_n', 'move', 'copy_backward', 'ranges::copy') and call.q.startswith('std::') and len(A) >= 3:
            d = models.objval(self.eng, st, fr, A[2])
            t = nodes[call.anodes[2]].get('t', '')
            dst = array_of(fr, call.anodes[2])
            if dst is not None:
                a = models.objval(self.eng, st, fr, A[0]); b = models.objval(self.eng, st, fr, A[1])
                n = None
                if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] == ('begin',) and b[2] == ('end',): n = st.read(('f', a[1], '#size'))
                elif is_c(sub(b, a)) if numeric2(a) and numeric2(b) else False: n = sub(b, a)
                elif nm == 'copy_n': n = b
                elif b[0] == 'it' and b[2][0] == 'off' and b[2][2] is not None: n = b[2][2]
                self.cx.check(n is not None and st.facts.prove_ge0(sub(c(dst), n)), 'array extent', short(fr.fn), fr.fn.where(call.line),
                              'up to %s elements are copied into a std::array of %d' % (val_str(n) if n else 'unknown', dst), st.trace_list())

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        Bounds.on_cont(self, st, fr, op, loc, args, call, **kw)
        if op == 'index' and call.cls == 'std::array' and UP in fr.fn.sq:
            m = re.search(r'array<.*, (\d+)[uUlL]*>', fr.fn.nodes[call.node['obj']].get('t', ''))
            if m:
                i = kw['idx']
                self.cx.check(st.facts.prove_ge0(i) and st.facts.prove_ge0(sub(c(int(m.group(1)) - 1), i)), 'array extent', short(fr.fn),
                              fr.fn.where(call.line), 'element %s of a std::array of %s' % (val_str(i), m.group(1)), st.trace_list())


def numeric2(v): return v[0] in ('c', 'lin', 'prm', 'ld', 'sym', 'cast', 'addr', 'call')


def array_of(fr, nid, depth=6):
    """Extent of the std::array whose begin()/data() this expression is."""
    nodes = fr.fn.nodes
    n = nodes[nid]
    while n is not None and depth:
        depth -= 1
        if n.get('q', '').startswith('std::array') and 'obj' in n:
            m = re.search(r'array<.*, (\d+)[uUlL]*>', nodes[n['obj']].get('t', ''))
            return int(m.group(1)) if m else None
        ch = n.get('c') or n.get('args') or []
        ch = [x for x in ch if isinstance(x, int)]
        if len(ch) != 1: return None
        n = nodes[ch[0]]
    return None


class Contract:
    """Nested decoding operations are verified on their own; here they only
    move the cursor forward inside the buffer and never clear the error."""

    def __init__(self, CUR, ERR): self.CUR, self.ERR = CUR, ERR

    def on_ret(self, st, fr, call, v):
        if call.q.rsplit('::', 1)[0] != UP or call.obj != U: return
        f = self.eng.p.fn(call.node.get('fid'))
        if f is not None and self.eng.inline_pred(f): return
        site = self.eng.site(fr, call.nid)
        old, e0 = st.read(self.CUR), st.read(self.ERR)
        k = ('opq', 'cur') + site; SYMW[k] = 64
        er = ('opq', 'err') + site; SYMW[er] = -32
        was = st.facts.truth(eq0(e0)) is False
        drop = [x for x in st.facts.s if mentions(x, lambda y: y in (k, er))]
        if drop: st.facts = Facts(st.facts.s - set(drop))
        st.mem[self.CUR] = k; st.mem[self.ERR] = er
        st.facts = st.facts.assume(ge0(sub(k, BASE))).assume(ge0(sub(add(BASE, N), k)))
        if was: st.facts = st.facts.assume(eq0(er), False)


class Elems:
    """No element is decoded once an error is recorded (or the count is
    bounded by the bytes present)."""

    def __init__(self, cx, err): self.cx, self.err = cx, err

    def on_call(self, st, fr, call):
        if not call.q.startswith(UP + '::unpack'): return
        f, nid, lp = fr, call.nid, False
        while f is not None:
            lp = lp or in_loop(f.fn, nid)
            f, nid = f.parent, f.callnode
        if not lp: return
        cnt = [f for f in st.facts.s if f[0] == 'ge0' and mentions(f[1], lambda x: x and x[0] in ('byte', 'at', 'ld', 'wrap', 'phi', 'op'))]
        if st.facts.truth(eq0(st.read(self.err))) is False:
            self.cx.check(any(bounded(st, f[1]) for f in cnt), 'elements stop', short(fr.fn) + targ(fr.fn), fr.fn.where(call.line),
                          'elements go on being decoded although an error is recorded: the announced count (up to 2^32) is not bounded by the '
                          'bytes present', st.trace_list())


def bounded(st, l):
    """some upper bound of the loop counter is provably <= N"""
    for s, x in lin_parts(l)[1]:
        if x > 0 and s not in (N, O) and st.facts.prove_ge0(sub(N, s)): return True
    return False


def in_loop(fn, nid):
    for h, body in fn.loops().items() if isinstance(fn.loops(), dict) else fn.loops():
        for b in body:
            for e in fn.blocks[b]['e']:
                if e == nid or isinstance(e, dict) and e.get('n') == nid: return True
    return False


def has_elems(p, fn, depth=3):
    for i, n in enumerate(fn.nodes):
        if n and n.get('q') and strip_t(n['q']).startswith(UP + '::unpack') and in_loop(fn, i): return True
    if depth:
        for x in callees(fn):
            g = p.fn(x)
            if g is not None and g.sq.startswith(UP) and g.acc != 0 and has_elems(p, g, depth - 1): return True
    return False


def targ(fn): return '<%s>' % ','.join(c04.strip_c(p['t']) for p in fn.params)


def fields(cx):
    p = cx.p
    ptrs = [f['name'] for f in p.record(UP)['fields'] if f['t'].endswith('*')]
    errs = [f['name'] for f in p.record(UP)['fields'] if f['t'].endswith('Error')]
    if len(ptrs) != 2 or not errs: raise AnalysisError('decoder cursor/end/error members not found')
    return ptrs[0], ptrs[1], errs[0]


def run(cx):
    p = cx.p
    cur, end, err = fields(cx)
    CUR, END, ERR = ('f', U, cur), ('f', U, end), ('f', ('f', U, err), 'code_')
    if not any(f['name'] == 'code_' for f in p.record('plain::Error')['fields']): raise AnalysisError('error code member not found')
    SYMW[N] = 64; SYMW[O] = 64
    inl = lambda fn: fn.sq.startswith(NS) or fn.sq.startswith('plain::Error')

    def top(root):
        return lambda fn: inl(fn) and (fn.scls != UP or fn.acc != 0 or fn.name in ('increment', 'set_data', 'data') or fn is root)

    def start(error):
        st = State()
        st.mem[CUR] = add(BASE, O)
        st.mem[END] = add(BASE, N)
        st.facts = st.facts.assume(ge0(sub(N, O))).assume(ge0(O)).assume(ge0(sub(c(1 << 48), N)))
        code = ('sym', '#err'); SYMW[code] = -32
        st.mem[ERR] = code if error else FALSE
        if error: st.facts = st.facts.assume(eq0(code), False)
        return st

    def extent(st, fr, reg):
        return N if reg == B else None
    fns = [f for f in p.all() if f.scls == UP and f.blocks and not f.ctor and not f.dtor and f.acc == 0 and f.name not in ('increment', 'set_data')]
    if len(fns) < 20: raise AnalysisError('only %d decoding operations' % len(fns))
    invs = [lambda st: ge0(sub(add(BASE, N), st.read(CUR))), lambda st: ge0(sub(st.read(CUR), BASE)),
            lambda st: b_not(eq0(st.read(ERR)))]
    # with the error flag unknown, nothing but the outermost frame need be exact
    for fn in fns:
        for error in (False, True):
            r = R(cx, extent, 'in buffer')
            rules = [r, Contract(CUR, ERR)]
            if error and fn.name.startswith('unpack'): rules.append(Elems(cx, ERR))
            e = cx.engine(rules, inline=top(fn), wrap=True, unroll=0, merge_at=12, max_steps=400000, invs=invs)
            try: outs = cx.run(e, fn, st=start(error))
            except Limit as ex: raise AnalysisError('%s: %s' % (fn.sq, ex))
            inst = short(fn) + targ(fn) + (' after an error' if error else '')
            if error and rules[2:] and has_elems(p, fn): cx.ok('elements stop', short(fn) + targ(fn))
            for st, rv, how in outs:
                if how == 'noret': continue
                o = sub(st.read(CUR), BASE)
                ok = st.facts.prove_ge0(o) and st.facts.prove_ge0(sub(N, o))
                cx.check(ok and sub(st.read(END), add(BASE, N)) == FALSE, 'cursor invariant', inst, fn.where(),
                         'the cursor may end up outside the buffer (at %s of #n)' % val_str(o),
                         st.trace_list())
                if error:
                    cx.check(st.facts.truth(eq0(st.read(ERR))) is False, 'error sticky', inst, fn.where(),
                             'an error recorded earlier can be lost', st.trace_list())
    # the constructor and set_data establish the range they are given
    for fn in [f for f in p.all() if f.scls == UP and f.blocks and len(f.params) == 2 and (f.ctor or f.name == 'set_data')]:
        e = cx.engine([], inline=inl, wrap=True)
        a = ('addr', ('i', B, FALSE))
        for st, rv, how in cx.run(e, fn, args=[a, N]):
            cx.check(st.read(CUR) == a and sub(st.read(END), add(BASE, N)) == FALSE, 'cursor invariant', short(fn), fn.where(),
                     'the decoder does not cover exactly the bytes it is given', st.trace_list())
    truncation(cx, CUR, END, ERR, inl)


def truncation(cx, CUR, END, ERR, inl):
    p = cx.p
    c04.Out.vec = [f['name'] for f in p.record(c04.PK)['fields'] if 'vector' in f['t']][0]
    packs = {c04.strip_c(f.params[0]['t']): f for f in p.need(c04.PK + '::pack', 10) if len(f.params) == 1}
    unpacks = {c04.strip_c(f.params[0]['t']): f for f in p.need(UP + '::unpack', 10)}
    for t, w in list(c04.INTS.items()) + [('bool', 8), ('std::nullptr_t', None)]:
        enc = packs.get(t) or packs.get(t.replace('long', 'long long'))
        dec = unpacks.get(t) or unpacks.get(t.replace('long', 'long long'))
        if enc is None or dec is None: raise AnalysisError('no encoder/decoder for %s' % t)
        e = cx.engine([c04.Out()], inline=lambda fn: fn.sq.startswith(NS), wrap=True, unroll=10, merge_at=500)
        v = ('prm', enc.params[0]['name'])
        if w: SYMW[v] = w
        seen = set()
        for st, rv, how in cx.run(e, enc):
            if how != 'ret': continue
            out = st.mon['out']
            for k in range(len(out)):
                s0 = State(); s0.facts = st.facts
                for i, b in enumerate(out[:k]): s0.mem[('i', B, c(i))] = b
                s0.mem[CUR] = BASE; s0.mem[END] = add(BASE, c(k)); s0.mem[ERR] = FALSE
                V = ('g', '#value')
                e2 = cx.engine([], inline=inl, wrap=True, unroll=10, merge_at=500)
                inst = '%s: first %d of %d bytes [%s]' % (t, k, len(out), ' '.join(val_str(b) if b[0] == 'c' else '*' for b in out))
                for s2, rv2, how2 in cx.run(e2, dec, st=s0, args=[('ref', V)]):
                    cx.check(s2.facts.truth(eq0(s2.read(ERR))) is False, 'truncation', inst, dec.where(),
                             'decoding a %s cut after %d of %d bytes records no error' % (t, k, len(out)), s2.trace_list(), key='truncation@' + t)
    # a payload shorter than the announced length
    K = ('sym', '#missing'); SYMW[K] = 64
    for f in p.need(c04.PK + '::pack', 10):
        t = c04.strip_c(f.params[0]['t'])
        if not (t.startswith('std::basic_string<char') or t.startswith('std::vector<unsigned char')): continue
        dec = unpacks.get(t)
        if dec is None: raise AnalysisError('no decoder for ' + t)
        e = cx.engine([c04.Out()], inline=lambda fn: False, wrap=True, unroll=9, merge_at=500)
        S = ('ld', ('f', ('d', ('prm', f.params[0]['name'])), '#size')); SYMW[S] = 64
        seen = set()
        for st, rv, how in cx.run(e, f):
            out = st.mon['out']
            if how != 'ret' or not out or out in seen: continue
            seen.add(out)
            fs = Facts(frozenset(x for x in st.facts.s if not mentions(x, lambda y: y and y[0] in ('it', 'i', 'rel'))))
            if fs.truth(eq0(S)) is True: continue
            s0 = State(); s0.facts = fs.assume(ge0(sub(K, c(1)))).assume(ge0(sub(S, K)))
            for i, b in enumerate(out): s0.mem[('i', B, c(i))] = b
            s0.mem[CUR] = BASE; s0.mem[END] = add(BASE, add(c(len(out)), sub(S, K))); s0.mem[ERR] = FALSE
            e2 = cx.engine([], inline=inl, wrap=True, unroll=10, merge_at=500)
            inst = '%s: %d header bytes, payload cut short' % (t, len(out))
            for s2, rv2, how2 in cx.run(e2, dec, st=s0, args=[('ref', ('g', '#value'))]):
                cx.check(s2.facts.truth(eq0(s2.read(ERR))) is False, 'truncation', inst, dec.where(),
                         'decoding a %s whose payload is shorter than announced records no error' % t, s2.trace_list(), key='truncation@payload ' + t)
