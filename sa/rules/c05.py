"""Framing: limits enforced, all-or-nothing consumption, encoder/decoder agreement."""
from ..bounds import *

RULE = ('The stream decoders are abstractly executed over an input of arbitrary length and content (peek/read/size/remove modelled by their '
        'contracts). Binary codec: a packet is only returned with 0 < id <= max_id and length <= max_length (host order), exactly '
        'header+length bytes consumed, the body being exactly those bytes and the id the one in the header; every error exit has consumed '
        'nothing; reserved ids raise exactly their own call flag; the header written by the encoder has the same fields at the same offsets '
        'in the same byte order and is followed by the whole body. Line codec: nothing consumed before a line end is seen, exactly the line '
        'and its terminator consumed, every access within the bytes seen, the call markers written are those looked for and stripped.')
LEVEL = 'proof'
ASSUMES = ['stream peek/read/remove/size behave as documented (decided by C06/C07)', 'packet write/set_* behave as documented (C01/C02)',
           'one thread decodes a stream']
MIN = {'limits': 1, 'consumption': 4, 'body': 2, 'call flag': 3, 'header layout': 2, 'line': 3, 'marker': 3}
NS = 'plain::net::stream::'
ST = NS + 'Basic'
PB = 'plain::net::packet::Basic'
AV = ('sym', '#avail')
NPOS = (1 << 64) - 1
FLAGS = {'set_call_request': 'request', 'set_call_response': 'response', 'set_call_notify': 'notify'}
ISFLAG = {'is_call_request': 'request', 'is_call_response': 'response', 'is_call_notify': 'notify'}


class Stream(Bounds):
    """Contract of the input stream and record of what the decoder does."""

    def __init__(self, cx):
        Bounds.__init__(self, cx, self.ext, 'in buffer')

    def init(self, st, fr):
        SYMW[AV] = 64
        st.mon.update(used=c(0), ret=None, body=None, id=None, flags=(), eqs=(), seen=None, hdr=None, made=False)
        st.facts = st.facts.assume(ge0(AV)).assume(ge0(sub(c(1 << 40), AV)))

    def ext(self, st, fr, reg):
        s = st.mon['seen']
        if s and reg == s[0]: return s[1]
        return None

    def on_call(self, st, fr, call):
        q = call.q
        if q.rsplit('::', 1)[0] == PB or (call.obj is not None and q.startswith(PB + '::')):
            A = [models.rv(self.eng, st, fr, a) for a in call.args]
            nm = call.name
            if nm == 'set_id': st.mon['id'] = A[0]
            elif nm == 'write' and len(A) == 2:
                self.access(st, fr, A[0], A[1], 'packet write', call.line)
                st.mon['body'] = (A[0], A[1])
            elif nm in FLAGS and A[0] != FALSE: st.mon['flags'] = st.mon['flags'] + (FLAGS[nm],)
            elif nm in ('set_readable', 'set_writeable'): st.mon[nm] = A[0]
        elif q == 'std::variant::variant':
            t = fr.fn.nodes[call.anodes[0]].get('t', '') if call.anodes else ''
            k = 'error' if 'Error' in t else 'packet' if 'shared_ptr' in t else None
            if k: st.mon['ret'] = k
            if k == 'packet':
                # a variant built from a possibly null pointer is still "a packet"
                pass
        else: Bounds.on_call(self, st, fr, call)

    def on_make(self, st, fr, call, ptr, loc):
        st.mon['made'] = True

    def on_ret(self, st, fr, call, v):
        if call.q.rsplit('::', 1)[0] == PB and call.name in ISFLAG and st.mon['made']:
            st.env[call.nid] = TRUE if ISFLAG[call.name] in st.mon['flags'] else FALSE
            return
        if call.q.rsplit('::', 1)[0] != ST or call.obj is None:
            if call.name == 'find' and call.q.startswith('std::basic_string'):
                n = st.read(('f', call.obj, '#size'))
                st.mon['find'] = (v, n)
            return
        nm = call.name
        left = sub(AV, st.mon['used'])
        A = [models.rv(self.eng, st, fr, a) for a in call.args]
        if nm == 'size': st.env[call.nid] = left
        elif nm in ('peek', 'read'):
            n = A[1]
            if st.facts.prove_ge0(sub(left, n)): r = n
            else:
                r = v
                SYMW.setdefault(r, 64)
                st.facts = st.facts.assume(ge0(sub(left, r))).assume(ge0(sub(n, r)))
            st.env[call.nid] = r
            sp = split(A[0])
            if nm == 'peek':
                st.mon['seen'] = (sp[0], r) if sp and A[0][0] == 'addr' and A[0][1][0] == 'i' else st.mon['seen']
                st.mon['hdr'] = (A[0], n, r, st.mon['used'])
            else:
                st.mon['rd'] = (A[0], n, r, st.mon['used'])
                st.mon['used'] = add(st.mon['used'], r)
        elif nm == 'remove':
            n = A[0]
            if n[0] == 'wrap': n = n[1]           # bounded below by prove
            if not st.facts.prove_ge0(sub(left, n)):
                n = ('opq', 'rm') + self.eng.site(fr, call.nid); SYMW[n] = 64
            st.mon['used'] = add(st.mon['used'], n)
        elif nm == 'clear':
            st.mon['used'] = ('opq', 'cl') + self.eng.site(fr, call.nid)
        elif nm not in ('empty', 'full', 'encrypted', 'compressed', 'socket'):
            st.mon['used'] = ('opq', 'x') + self.eng.site(fr, call.nid)

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        fnd = st.mon.get('find')
        if fnd:
            if st.facts.truth(eq0(sub(fnd[0], c(NPOS)))) is False or st.facts.prove_ge0(sub(c(NPOS - 1), fnd[0])):
                st.facts = st.facts.assume(ge0(sub(sub(fnd[1], fnd[0]), c(1)))) or st.facts
        # comparisons of slices of the input with a constant
        if taken and cond[0] in ('eq', 'eq0') or not taken and cond[0] == 'not':
            gs, ts = [], []

            def walk(x):
                if isinstance(x, tuple) and x:
                    if x[0] == 'ld':
                        r = x[1]
                        (gs if r[0] == 'g' else ts).append(r); return
                    for y in x: walk(y)
            walk(cond)
            if len(gs) == 1 and len(ts) == 1:
                d = st.mem.get(('f', ts[0], '#data')); n = st.read(('f', ts[0], '#size'))
                if d is not None: st.mon['eqs'] = st.mon['eqs'] + ((gs[0][1], d, n),)


def prove_eq(st, a, b):
    d = sub(a, b)
    return d == FALSE or st.facts.prove_ge0(d) and st.facts.prove_ge0(neg(d))


def run(cx):
    p = cx.p
    dec = p.need(NS + 'decode')[0]; enc = p.need(NS + 'encode')[0]
    ldec = p.need(NS + 'line_decode')[0]; lenc = p.need(NS + 'line_encode')[0]
    inl = lambda fn: fn.sq.startswith(NS) and fn.scls != ST
    hdr = binary(cx, dec, inl)
    encoder(cx, enc, inl, hdr)
    marks = line(cx, ldec, inl)
    lencoder(cx, lenc, inl, marks)


def binary(cx, fn, inl):
    lim = ('d', ('prm', fn.params[1]['name']))
    MID, MLEN = ('ld', ('f', lim, 'max_id')), ('ld', ('f', lim, 'max_length'))
    for f in ('max_id', 'max_length'):
        if not any(x['name'] == f for x in cx.p.record('plain::net::packet::limit_struct')['fields']): raise AnalysisError('limit member %s gone' % f)
    e = cx.engine([Stream(cx)], inline=inl, wrap=True, merge_at=200)
    outs = cx.run(e, fn)
    hdrs = set()
    npk = 0
    for st, rv, how in outs:
        m = st.mon
        if m['ret'] is None: raise AnalysisError('decode: unclassified exit')
        if m['ret'] == 'error':
            cx.check(m['used'] == FALSE or prove_eq(st, m['used'], FALSE), 'consumption', 'error exit %s' % exitkey(st), fn.where(),
                     'bytes (%s) are consumed although no packet is returned' % val_str(m['used']), st.trace_list(), key='consumption@error')
            continue
        npk += 1
        h = m['hdr']
        if h is None:
            cx.bad('limits', 'packet', fn.where(), 'a packet is returned without looking at the header', st.trace_list()); continue
        H, hs, got, at = h
        # the header fields as stored in the structure that was filled
        fid = fln = None
        for v, what in ((m['id'], 'id'), ):
            if v is None:
                cx.bad('limits', 'packet', fn.where(), 'the packet is returned without its id', st.trace_list()); break
            r = field_of(v, H)
            cx.check(r is not None and v[0] == 'bswap', 'limits', 'id is the header id in host order', fn.where(),
                     'the id given to the packet (%s) is not the byte-swapped header field' % val_str(v), st.trace_list())
            fid = r
        if fid is None: continue
        ID = m['id']
        body = m['body']
        rd = m.get('rd')
        LEN = rd[1] if rd else None
        cx.check(st.facts.truth(eq0(ID)) is False, 'limits', 'id != 0', fn.where(), 'a packet with id 0 can be returned', st.trace_list())
        cx.check(st.facts.prove_ge0(sub(MID, ID)), 'limits', 'id <= max_id', fn.where(), 'a packet with an id above the limit can be returned', st.trace_list())
        if LEN is None:
            cx.bad('body', 'packet', fn.where(), 'a packet is returned without its body being read', st.trace_list()); continue
        fln = field_of(LEN, H)
        cx.check(fln is not None and LEN[0] == 'bswap', 'limits', 'length is the header length in host order', fn.where(),
                 'the number of body bytes (%s) is not the byte-swapped header length' % val_str(LEN), st.trace_list())
        cx.check(st.facts.prove_ge0(sub(MLEN, LEN)), 'limits', 'length <= max_length', fn.where(),
                 'a packet longer than the limit can be returned', st.trace_list())
        cx.check(prove_eq(st, m['used'], add(hs, LEN)), 'consumption', 'packet: header+length', fn.where(),
                 'a returned packet consumes %s bytes instead of header plus length' % val_str(m['used']), st.trace_list())
        cx.check(prove_eq(st, rd[3], hs) and prove_eq(st, rd[2], LEN), 'body', 'read after the header, in full', fn.where(),
                 'the body is read at offset %s (%s bytes)' % (val_str(rd[3]), val_str(rd[2])), st.trace_list())
        ok = body is not None and body[0] == rd[0] and prove_eq(st, body[1], LEN)
        if body is None and prove_eq(st, LEN, FALSE): ok = True
        cx.check(ok, 'body', 'packet body = bytes read', fn.where(), 'the packet does not receive exactly the bytes of the frame', st.trace_list())
        cx.check(m.get('set_readable') not in (None, FALSE), 'body', 'readable', fn.where(), 'the packet is returned unreadable', st.trace_list())
        ids = {'request': -1, 'response': -2, 'notify': -3}
        for nm, off in ids.items():
            k = c(65535 + off)
            t = st.facts.truth(eq0(sub(ID, k)))
            has = nm in m['flags']
            cx.check((t is True) == has and len(m['flags']) <= 1 and (t is not None or not has), 'call flag', nm + (' set' if has else ' not set'), fn.where(),
                     'a packet with%s the reserved %s id is %s as a call %s' % ('' if t else 'out', nm, '' if has else 'not marked', nm), st.trace_list(), key='call flag@' + nm)
        hdrs.add((fid, fln, hs))
    if not npk: raise AnalysisError('decode never returns a packet')
    if len(hdrs) != 1: 
        if cx.viol: return None
        raise AnalysisError('decode: header layout unclear %s' % hdrs)
    return hdrs.pop()


def field_of(v, H):
    """Name of the header member a value was loaded from (or None)."""
    x = v[2] if v[0] == 'bswap' else v
    if x[0] == 'ld' and x[1][0] == 'f' and H[0] == 'addr' and x[1][1] == H[1]: return x[1][2]
    return None


def exitkey(st):
    t = st.trace_list()
    return t[-1].rsplit(':', 2)[0].rsplit('/', 1)[-1] + '#%d' % len(t) if t else ''


class Enc:
    def init(self, st, fr): st.mon['out'] = ()

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'append' or op == 'insert' and len(args) == 3:
            A = [models.rv(self.eng, st, fr, a) for a in args]
            if op == 'insert': A = A[1:]
            if len(A) == 1: return
            src, n = A[0], A[1]
            if src[0] == 'addr' and src[1][0] in ('v', 't') and is_c(n):
                fl = tuple(sorted((k[2], v) for k, v in st.mem.items() if k[0] == 'f' and k[1] == src[1]))
                st.mon['out'] = st.mon['out'] + (('hdr', n, fl, loc),)
            else: st.mon['out'] = st.mon['out'] + (('body', src, n, loc),)
        elif op in ('push', 'assign', 'operator+=', 'resize', 'clear', 'erase', 'replace'):
            st.mon['out'] = st.mon['out'] + ((op, loc),)


def encoder(cx, fn, inl, hdr):
    if hdr is None: return
    fid, fln, hs = hdr
    e = cx.engine([Enc()], inline=lambda f: inl(f) or f.sq in (PB + '::id',), wrap=True, merge_at=50)
    P = ('d', ('ld', ('f', ('d', ('prm', fn.params[0]['name'])), '#p')))
    for st, rv, how in cx.run(e, fn):
        out = st.mon['out']
        w = fn.where()
        ok = len(out) == 2 and out[0][0] == 'hdr' and out[1][0] == 'body'
        cx.check(ok, 'header layout', 'header then body', w, 'the encoder writes %s' % (', '.join(o[0] for o in out) or 'nothing'), st.trace_list())
        if not ok: continue
        _, n, fl, loc = out[0]
        fl = dict(fl)
        cx.check(n == hs, 'header layout', 'header size', w, 'a header of %s bytes is written, %s are expected' % (val_str(n), val_str(hs)))
        i = fl.get(fid, FALSE); l = fl.get(fln, FALSE)
        cx.check(i[0] == 'bswap' and idval(i[2]), 'header layout', 'id in network order', w,
                 'the header member %s holds %s' % (fid, val_str(i)))
        src, n2 = out[1][1], out[1][2]
        lv = l[2] if l[0] == 'bswap' else l
        if lv[0] == 'cast': lv = lv[2]
        cx.check(l[0] == 'bswap' and lv == n2, 'header layout', 'length in network order', w,
                 'the header length (%s) is not the number of body bytes appended (%s)' % (val_str(l), val_str(n2)))
        cx.check(src[0] == 'addr' and src[1][0] == 'i' and src[1][2] == FALSE and n2[0] == 'ld' and n2[1] == ('f', src[1][1], '#size'),
                 'body', 'encoder appends the whole body', w, 'only %s bytes from %s are appended' % (val_str(n2), val_str(src)))


def idval(v):
    return v[0] == 'call' and v[1] == PB + '::id' or v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == 'id' or v[0] == 'cast' and idval(v[2])


def line(cx, fn, inl):
    e = cx.engine([Stream(cx)], inline=inl, wrap=True, merge_at=400, max_steps=200000)
    lim = ('d', ('prm', fn.params[1]['name']))
    MLEN = ('ld', ('f', lim, 'max_length'))
    marks = {}
    npk = 0
    for st, rv, how in cx.run(e, fn):
        m = st.mon
        if m['ret'] is None: raise AnalysisError('line_decode: unclassified exit')
        if m['ret'] == 'error':
            cx.check(prove_eq(st, m['used'], FALSE), 'consumption', 'line: error exit %s' % exitkey(st), fn.where(),
                     'bytes (%s) are consumed although no line is returned' % val_str(m['used']), st.trace_list(), key='consumption@line error')
            continue
        npk += 1
        pos = m['find'][0] if m.get('find') else None
        if pos is None:
            cx.bad('line', 'terminator', fn.where(), 'a line is returned without finding its end', st.trace_list()); continue
        cx.check(prove_eq(st, m['used'], add(pos, c(1))), 'line', 'consumed = line + terminator', fn.where(),
                 'a returned line consumes %s bytes, the line end is at %s' % (val_str(m['used']), val_str(pos)), st.trace_list())
        cx.check(st.facts.prove_ge0(sub(sub(MLEN, pos), c(1))), 'line', 'length <= limit', fn.where(),
                 'a line longer than the limit can be returned', st.trace_list())
        body = m['body']
        base = ('addr', ('i', m['seen'][0], FALSE))
        if not m['flags']:
            if body is None:
                ok = prove_eq(st, pos, FALSE) or prove_eq(st, pos, c(1))
            else:
                ok = sub(body[0], base) == FALSE and (prove_eq(st, body[1], pos) or prove_eq(st, add(body[1], c(1)), pos))
            cx.check(ok, 'line', 'body = line without terminator', fn.where(), 'the packet does not receive exactly the line', st.trace_list())
        else:
            f = m['flags'][0]
            cx.check(len(m['flags']) == 1, 'marker', 'one flag', fn.where(), 'several call flags on one packet', st.trace_list())
            if body is None:
                cx.bad('marker', f, fn.where(), 'a call packet without body', st.trace_list()); continue
            off = sub(body[0], base)
            stop = add(off, body[1])
            first = [g for g, d, n in m['eqs'] if sub(d, base) == FALSE and prove_eq(st, n, off)]
            last = [g for g, d, n in m['eqs'] if prove_eq(st, sub(d, base), stop) and
                    (prove_eq(st, add(stop, n), pos) or prove_eq(st, add(add(stop, n), c(1)), pos))]
            cx.check(bool(first and last), 'marker', f + ': markers stripped', fn.where(),
                     'the body of a %s line (bytes %s..%s) is not what lies between its two markers' % (f, val_str(off), val_str(stop)), st.trace_list(),
                     key='marker strip@' + f)
            if first and last: marks.setdefault(f, set()).add((first[-1], last[-1]))
    if not npk: raise AnalysisError('line_decode never returns a packet')
    return marks


class LEnc:
    """Track concatenations as sequences of parts."""

    def init(self, st, fr): st.mon['seq'] = (); st.mon['tail'] = (); st.mon['final'] = None

    def parts(self, st, a):
        d = dict(st.mon['seq'])
        if a[0] == 'lv':
            if a[1] in d: return d[a[1]]
            if a[1][0] == 'g': return (a[1][1],)
            x = st.mem.get(('f', a[1], '#data'))
            return (('data', x),) if x is not None else (('obj', a[1]),)
        return (a,)

    def put(self, st, loc, seq):
        d = dict(st.mon['seq']); d[loc] = seq
        st.mon['seq'] = tuple(sorted(d.items(), key=repr))

    def on_ret(self, st, fr, call, v):
        if call.q == 'std::operator+' and v[0] == 'lv':
            self.put(st, v[1], self.parts(st, call.args[0]) + self.parts(st, call.args[1]))

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'assign' and args and args[0][0] == 'lv': self.put(st, loc, self.parts(st, args[0]))
        elif op == 'push': self.put(st, loc, self.parts(st, ('lv', loc)) + (models.rv(self.eng, st, fr, args[0]),))
        elif op in ('append', 'operator+=') and len(args) == 1: self.put(st, loc, self.parts(st, ('lv', loc)) + self.parts(st, args[0]))
        elif op in ('append',) and len(args) == 2:
            a = models.rv(self.eng, st, fr, args[0])
            g = a[1][1][1] if a[0] == 'addr' and a[1][0] == 'i' and a[1][1][0] == 'g' else ('data', a)
            self.put(st, loc, self.parts(st, ('lv', loc)) + (g,))
        elif op == 'insert' and args:
            i = models.rv(self.eng, st, fr, args[0])
            if i == FALSE and len(args) == 2: self.put(st, loc, self.parts(st, args[1]) + self.parts(st, ('lv', loc)))
            else: self.put(st, loc, (('unknown',),))
        elif op == 'ctor' and not args: self.put(st, loc, ())
        elif op == 'ctor' and len(args) == 1 and args[0][0] == 'lv': self.put(st, loc, self.parts(st, args[0]))

    def on_move(self, st, fr, src, dst, line):
        self.put(st, dst, self.parts(st, ('lv', src)))

    def on_copy(self, st, fr, src, dst, **kw):
        self.put(st, dst, self.parts(st, ('lv', src)))


def lencoder(cx, fn, inl, marks):
    e = cx.engine([LEnc()], inline=inl, wrap=True, merge_at=50)
    n = 0
    for st, rv, how in cx.run(e, fn):
        if how != 'ret' or rv is None or rv[0] != 'lv': continue
        d = dict(st.mon['seq'])
        seq = d.get(rv[1])
        if seq is None: raise AnalysisError('line_encode: result not tracked')
        flag = None
        for x in st.facts.s:
            if x[0] == 'not' and x[1][0] == 'eq0' and x[1][1][0] == 'call':
                nm = x[1][1][1].rsplit('::', 1)[-1]
                if nm in ISFLAG: flag = ISFLAG[nm]
        n += 1
        nl = seq and seq[-1] == c(10)
        cx.check(nl, 'line', 'encoder terminates the line', fn.where(), 'an encoded line does not end with a line feed', st.trace_list())
        mid = [x for x in seq[:-1] if isinstance(x, tuple) and x[0] == 'data']
        if flag is None:
            cx.check(len(seq) == 2 and len(mid) == 1, 'line', 'plain packet = body + line feed', fn.where(),
                     'a plain packet is written as %s' % (seq,), st.trace_list())
        else:
            ok = len(seq) == 4 and len(mid) == 1 and isinstance(seq[0], str) and isinstance(seq[2], str)
            cx.check(ok and (not marks.get(flag) or (seq[0], seq[2]) in marks[flag]), 'marker', flag + ': written as read', fn.where(),
                     'a %s is written with markers %s/%s but recognised by %s' % (flag, seq[0] if seq else '', seq[2] if len(seq) > 2 else '', sorted(marks.get(flag, []))),
                     st.trace_list(), key='marker agree@' + flag)
    if n < 4: raise AnalysisError('line_encode: %d exits' % n)
