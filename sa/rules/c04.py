"""RPC marshalling: what the encoder writes is what the decoder reads."""
from ..bounds import *

RULE = ('For every integer type, bool and null: the encoder is abstractly executed for an arbitrary value (value ranges from its own '
        'branches, bytes as exact linear slices of the value); the decoder is then abstractly executed over exactly those bytes under the '
        'same range facts, with the caller\'s variable holding an arbitrary previous value. Obligations per encoder path: the decoder '
        'stores the original value, consumes exactly the bytes written and records no error. For strings, byte arrays, sequences and maps '
        'the same is done for the length header (all size classes); maps must be read key/value in the order they are written.')
LEVEL = 'proof'
ASSUMES = ['floating point values are outside this rule', 'element payloads are covered by the rules of their own types']
MIN = {'round trip': 20, 'header': 8, 'map order': 1}
PK, UP = 'plain::net::rpc::Packer', 'plain::net::rpc::Unpacker'
NS = 'plain::net::rpc::'
INTS = {'signed char': -8, 'short': -16, 'int': -32, 'long': -64, 'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32,
        'unsigned long': 64}


class Out:
    """Collect what is appended to the packer's byte vector."""

    def init(self, st, fr): st.mon['out'] = ()

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if loc != ('f', ('d', ('sym', 'this')), self.vec): return
        if st.mon.get('body'): return
        if op == 'push':
            v = models.rv(self.eng, st, fr, args[0])
            if mentions(v, lambda x: x and x[0] == 'i' or x and x[0] == 'it'):
                st.mon['body'] = True; return
            n = fr.fn.nodes[call.anodes[0]]
            st.mon['out'] = st.mon['out'] + (icast_byte(v, n, st),)
        elif op in ('insert', 'append'):
            st.mon['body'] = True
        elif op not in ('size', 'empty', 'data', 'begin', 'end', 'reserve'):
            raise AnalysisError('unexpected operation on the packed bytes: ' + op)


def icast_byte(v, n, st):
    from ..engine import icast
    return icast(v, n.get('w', 32), 8, st)


def run(cx):
    p = cx.p
    vec = [f['name'] for f in p.record(PK)['fields'] if 'vector' in f['t']]
    if not vec: raise AnalysisError('packer byte vector not found')
    Out.vec = vec[0]
    ptrs = [f['name'] for f in p.record(UP)['fields'] if f['t'].endswith('*')]
    if len(ptrs) != 2: raise AnalysisError('unpacker cursor/end pointers not found')
    cur, end = ptrs
    inl = lambda fn: fn.sq.startswith(NS) and not fn.sq.startswith('plain::net::rpc::Dispatcher')
    packs = {}
    for f in p.need(PK + '::pack', 10):
        if len(f.params) == 1: packs[strip_c(f.params[0]['t'])] = f
    unpacks = {}
    for f in p.need(UP + '::unpack', 10):
        unpacks[strip_c(f.params[0]['t'])] = f

    def decode(fn, st0, bytes_, extra, tname, w, rules=()):
        """Run a decoder over the given bytes (+ `extra` unknown ones)."""
        st = State()
        st.facts = st0.facts
        U = ('d', ('sym', 'this'))
        B = ('g', '#wire')
        base = ('addr', ('i', B, FALSE))
        for i, b in enumerate(bytes_): st.mem[('i', B, c(i))] = b
        st.mem[('f', U, cur)] = base
        st.mem[('f', U, end)] = add(base, add(c(len(bytes_)), extra))
        V = ('g', '#value')
        if w:
            old = ('sym', '#old'); SYMW[old] = w
            st.mem[V] = old
        elem = (lambda f: inl(f) and f.name != 'unpack') if rules else inl
        e = cx.engine(list(rules), inline=elem, wrap=True, unroll=10, merge_at=500)
        outs = cx.run(e, fn, st=st, args=[('ref', V)])
        stop = add(base, add(c(len(bytes_)), extra))
        return outs, V, ('f', U, cur), stop, ('f', U, 'error_'), e

    def same(st, a, b):
        d = sub(a, b) if numeric_(a) and numeric_(b) else None
        if d is None: return a == b
        return d == FALSE or (st.facts.prove_ge0(d) and st.facts.prove_ge0(neg(d)))

    # ---- scalars ----
    for t, w in list(INTS.items()) + [('bool', 8), ('std::nullptr_t', None)]:
        enc = packs.get(t) or packs.get(t.replace('long', 'long long'))
        dec = unpacks.get(t) or unpacks.get(t.replace('long', 'long long'))
        if enc is None or dec is None: raise AnalysisError('no encoder/decoder for %s' % t)
        e = cx.engine([Out()], inline=inl, wrap=True, unroll=10, merge_at=500)
        v = ('prm', enc.params[0]['name'])
        if w: SYMW[v] = w
        n = 0
        for st, rv, how in cx.run(e, enc):
            if how != 'ret': continue
            n += 1
            out = st.mon['out']
            rng = range_str(st, v) if w else ''
            inst = '%s %s -> %d bytes [%s]' % (t, rng, len(out), ' '.join(val_str(b) if b[0] == 'c' else '*' for b in out))
            if not out:
                cx.bad('round trip', inst, enc.where(), 'the encoder writes nothing for this value', st.trace_list()); continue
            outs, V, C, stop, E, e2 = decode(dec, st, out, c(0), t, w)
            if not outs: raise AnalysisError('decoder of %s has no outcome' % t)
            for s2, rv2, how2 in outs:
                if w is not None:
                    got = s2.read(V)
                    if t == 'bool':
                        want = st.facts.truth(truthy(v))
                        ok = is_c(got) and bool(got[1]) == want or s2.facts.truth(truthy(got)) == want and want is not None
                    else: ok = same(s2, got, v)
                    cx.check(ok, 'round trip', inst, dec.where(), 'value %s (%s) is decoded as %s' % (val_str(v), rng, val_str(got)),
                             st.trace_list() + s2.trace_list(), key='round trip@%s' % t)
                pos = s2.read(C)
                cx.check(sub(pos, stop) == FALSE, 'consumed', inst, dec.where(),
                         '%s bytes are written for %s %s but the decoder ends at offset %s' % (
                             len(out), t, rng, val_str(sub(pos, ('addr', ('i', ('g', '#wire'), FALSE))))),
                         st.trace_list() + s2.trace_list(), key='consumed@%s' % t)
                cx.check(not any(under(k, E) for k in s2.mem), 'no error', inst, dec.where(),
                         'decoding what was encoded for %s records an error' % t, s2.trace_list(), key='no error@%s' % t)
        if n == 0: raise AnalysisError('encoder of %s has no outcome' % t)
    # ---- length headers ----
    heads = []
    for f in p.need(PK + '::pack', 10):
        t = strip_c(f.params[0]['t'])
        if t.startswith('std::basic_string<char') or t.startswith('std::vector<unsigned char'):
            heads.append((t, f, unpacks.get(t)))
    for a, b in (('pack_array', 'unpack_array'), ('pack_map', 'unpack_map')):
        decs = {strip_c(f.params[0]['t']): f for f in p.need(UP + '::' + b)}
        for f in p.need(PK + '::' + a):
            t = strip_c(f.params[0]['t'])
            if t in decs: heads.append((t, f, decs[t]))
    for t, enc, dec in heads:
        if dec is None: raise AnalysisError('no decoder for ' + t)
        e = cx.engine([Out()], inline=lambda fn: False, wrap=True, unroll=9, merge_at=500)
        S = ('ld', ('f', ('d', ('prm', enc.params[0]['name'])), '#size')); SYMW[S] = 64
        seen = set()
        for st, rv, how in cx.run(e, enc):
            out = st.mon['out']
            if how != 'ret' or (out, st.mon.get('body')) in seen: continue
            seen.add((out, st.mon.get('body')))
            # keep only what is known about the size
            st.facts = Facts(frozenset(x for x in st.facts.s if not mentions(x, lambda y: y and y[0] in ('it', 'i', 'rel'))))
            if not out:
                lo, hi = interval(st.facts, S)
                cx.check(lo is not None and lo >= 0xffffffff, 'header', '%s size>=%s refused' % (t, lo), enc.where(),
                         'nothing is written for a size of %s' % lo, st.trace_list(), key='header@' + t)
                continue
            inst = '%s %s -> %d header bytes' % (t, range_str(st, S), len(out))
            seq = 'pack_' in enc.sq
            r = Seq(S) if seq else None
            # elements of unknown encoding follow; leave room for them
            extra = S if not seq else room()
            outs, V, C, stop, E, e2 = decode(dec, st, out, extra, t, None, [r] if seq else ())
            if seq:
                cx.check(r.ok, 'header', inst, dec.where(), 'the element count read back is not the count written (%s)' %
                         ', '.join(sorted(r.seen)[:4]), st.trace_list(), key='header@' + t)
            else:
                for s2, rv2, how2 in outs:
                    pos = s2.read(C)
                    cx.check(same(s2, pos, stop), 'header', inst, dec.where(),
                             'a %s of %s is read back ending at offset %s' % (t, range_str(st, S), val_str(sub(pos, ('addr', ('i', ('g', '#wire'), FALSE))))),
                             st.trace_list() + s2.trace_list(), key='header@' + t)
                    cx.check(not any(under(k, E) for k in s2.mem), 'no error', inst, dec.where(), 'decoding what was encoded for %s records an error' % t,
                             s2.trace_list(), key='no error@' + t)
    # ---- key/value order of maps ----
    for a, b in (('pack_map', 'unpack_map'),):
        decs = {strip_c(f.params[0]['t']): f for f in p.need(UP + '::' + b)}
        for f in p.need(PK + '::' + a):
            t = strip_c(f.params[0]['t'])
            if t not in decs: continue
            x = order(cx, f, PK + '::pack'); y = order(cx, decs[t], UP + '::unpack')
            if not x or not y: raise AnalysisError('no element calls in map marshalling')
            cx.check(x == y and len(x) == 2, 'map order', t, decs[t].where(), 'written as %s, read as %s' % (x, y))


def order(cx, fn, callee):
    """Types handed to the element (un)packer along one loop iteration."""
    seqs = set()

    class O:
        def init(self, st, fr): st.mon['o'] = ()

        def on_call(self, st, fr, call):
            if call.q == callee:
                a = call.pt[0] if call.pt else ''
                if len(st.mon['o']) < 4: st.mon['o'] = st.mon['o'] + (strip_c(a),)
    e = cx.engine([O()], inline=lambda f: False, unroll=1)
    for st, rv, how in cx.run(e, fn): seqs.add(st.mon['o'])
    one = [s for s in seqs if len(s) == 2]
    return one[0] if len(set(one)) == 1 else (sorted(seqs)[0] if seqs else ())


class Seq:
    """The trip count of the element loop equals the encoded size."""

    def __init__(self, S): self.S, self.ok, self.seen = S, False, set()

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        if cond[0] == 'ge0':
            if cond[1] == sub(self.S, c(1)): self.ok = True
            elif not is_c(cond[1]): self.seen.add(val_str(cond))
        elif cond[0] == 'not': self.on_branch(st, fr, cond[1], not taken, line, nid)
        elif cond == eq0(self.S): self.ok = True


def room():
    s = ('sym', '#room'); SYMW[s] = 64
    return s


def numeric_(v): return v[0] in ('c', 'lin', 'prm', 'ld', 'sym', 'cast', 'byte', 'op', 'wrap', 'addr', 'phi')


def strip_c(t):
    t = t.replace('const ', '').rstrip('& ').strip()
    return t


def range_str(st, v):
    lo, hi = interval(st.facts, v)
    def s(x):
        if x is None: return '?'
        return str(x) if abs(x) < 100000 else hex(x)
    return '[%s..%s]' % (s(lo), s(hi))
