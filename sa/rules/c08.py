"""A connection slot that is used again starts clean."""
from ..execs import *
from .. import models
from ..rpcwalk import walk, CB, ST, SK
from .c16 import sig
from .c19 import zero
from .c24 import uncast, path_field, Base

RULE = ('Abstract execution of the initialisation of a connection (helpers in context): at every exit each field of the connection that holds state of a peer has been reset - the socket '
        'closed, the streams cleared, pending calls cleared, flags, counters and options at their initial value, codec and dispatcher empty - and the callbacks of the connection are '
        'erased under the keys under which they are set. Disconnecting empties the streams, lowers the work flags and the working mark before the callbacks run. Clearing a stream empties '
        'its buffer. A callback set for an event is looked up under the same key when the event happens, and run with the lock of the callbacks free.')
LEVEL = 'proof'
ASSUMES = ['a default constructed function, codec and optional is empty']
MIN = {'init': 10, 'gone': 4, 'key': 3, 'stream': 1}
CI = CB + '::Impl'
STATE = re.compile(r'^(std::atomic<)?(unsigned char|unsigned short|unsigned int|unsigned long|int|long|short|bool|signed char)>?$|^std::(unordered_)?(map|set|deque|vector|list)<|^std::function<|^std::optional<|codec_struct$|^std::(basic_)?string')
KEPT = {'id', 'keep_alive'}          # set when taken (C10); a connection is freed only when it is not kept alive (C10)


def fields(p):
    r = {}
    for f in p.record(CI)['fields']:
        t, n = f['t'], f['name']
        if 'stream::Basic' in t: r[n] = 'stream'
        elif 'socket::Basic' in t: r[n] = 'socket'
        elif n in KEPT or 'mutex' in t or 'weak_ptr' in t: continue
        elif STATE.search(t): r[n] = 'state'
    if 'socket' not in r.values() or list(r.values()).count('stream') < 2 or len(r) < 8: raise AnalysisError('anchor vanished: state of a connection')
    return r


class Reset(Base):
    unk = lost = False            # something was reset (erased) whose place is not known, in a loop over several: not judged

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(done=(), keys=(), erased=(), n=0)

    def mark(self, st, f):
        if f not in self.F: self.unk = True
        st.mon['done'] = tuple(sorted(set(st.mon['done']) | {f or '?'}))
    def unmark(self, st, f): st.mon['done'] = tuple(x for x in st.mon['done'] if x != f)

    def top(self, loc):
        """Direct field of the connection's state (and whether the location is the field itself)."""
        if loc and loc[0] == 'f' and loc[1][0] == 'd' and loc[2] in self.F: return loc[2]
        return None

    def empty(self, st, v, loc=None):
        return v is not None and v == FALSE

    def fresh(self, st, a):
        """An argument that is a default constructed temporary."""
        if a[0] != 'lv': return a == FALSE or a[0] == 's' and a[1] == ''
        if a[1] == ('g', 'std::nullopt'): return True
        al = st.mem.get(('#al', a[1]))
        if al and al[0] == ('g', 'std::nullopt'): return True
        if st.mem.get(a[1]) == FALSE: return True
        sub_ = [v for k, v in st.mem.items() if k[0] == 'f' and k[1] == a[1]]
        return bool(sub_) and all(v == FALSE or isinstance(v, tuple) and v[:1] == ('none',) for v in sub_) or a[1] in self.dflt

    def on_copy(self, st, fr, src, dst, line):
        if src == ('g', 'std::nullopt'): self.dflt.add(dst)
        self.pass_key(st, src, dst)

    def on_move(self, st, fr, src, dst, line): self.pass_key(st, src, dst)

    def key(self, st, l, s): st.mon['keys'] = tuple(sorted({(a, b) for a, b in st.mon['keys'] if a != l} | {(l, s)}, key=repr))

    def pass_key(self, st, src, dst):
        for l, s in st.mon['keys']:
            if l == src: self.key(st, dst, s)

    def on_call(self, st, fr, call):
        o = call.obj
        if o is not None:
            if strip_t(call.cls) == SK and call.name == 'close': self.mark(st, path_field(o))
            elif strip_t(call.cls) == ST:
                f = path_field(o)
                if call.name == 'clear': self.mark(st, f)
                elif call.name in ('pull', 'push', 'write'): self.unmark(st, f)
            else:
                f = self.top(o)
                if f and call.name == 'operator=' and call.args:
                    (self.mark if self.fresh(st, call.args[0]) else self.unmark)(st, f)
                elif f and call.name in ('reset', 'clear') and not call.args: self.mark(st, f)
        if call.name == 'get_callable_key' or (strip_t(call.q or '').endswith('callable_key')):
            a = call.args[-1]
            self.last = self.lit(st, a)

    def lit(self, st, a):
        if a[0] == 's': return a
        if a[0] == 'lv':
            for k in (a[1], ('f', a[1], '#p'), ('f', a[1], '#str'), ('f', a[1], '#data')):
                if k in st.mem and st.mem[k][0] in ('s', 'g'): return st.mem[k]
            a = self.strs.get(a[1], a)
        return a if a[0] in ('s', 'g') or a[0] == 'lv' and a[1][0] == 'g' else ('?',)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        f = self.top(loc)
        if op == 'ctor' and args: self.strs[loc] = args[0] if args[0][0] in ('s', 'g') else ('?',)
        if f and op == 'clear': self.mark(st, f)
        elif op == 'swap':
            g = self.top(args[0][1]) if args and args[0][0] == 'lv' else None
            if (f or g) and (loc[0] == 't' or args and args[0][0] == 'lv' and args[0][1][0] in ('t', 'v') or loc[0] == 'v'): self.mark(st, f or g)
        elif f and op in ('push', 'insert', 'index'): self.unmark(st, f)
        if loc[0] == 'g' and op == 'erase' and 'call' in loc[1]:
            st.mon['n'] = min(st.mon['n'] + 1, 4)
            a = args[0][1] if args and args[0][0] == 'lv' else None
            al = st.mem.get(('#al', a))
            if not any((l == a or al and al[0] == l) and s != ('?',) for l, s in st.mon['keys']): st.mon['lost'] = self.lost = True
            for l, s in st.mon['keys']:
                if l == a or al and al[0] == l: st.mon['erased'] = tuple(sorted(set(st.mon['erased']) | {s}, key=repr))
        elif loc[0] == 'g' and op == 'clear': st.mon['n'] = 100

    def on_ret(self, st, fr, call, v):
        if strip_t(call.q or '').endswith('callable_key') and v[0] == 'lv':
            self.key(st, v[1], self.last)

    def on_write(self, st, fr, loc, v, line, init):
        f = self.top(loc)
        if f and v is not None: (self.mark if v == FALSE else self.unmark)(st, f)

    def on_atomic(self, st, fr, op, loc, line, **kw):
        f = self.top(loc)
        if not f or op == 'load': return
        v = kw.get('v')
        if op == 'store' and v is not None: (self.mark if v == FALSE or zero(st.facts, v) else self.unmark)(st, f)
        else: self.unmark(st, f)


class Init(Reset):
    def __init__(self, cx, F, sets): self.cx, self.F, self.sets, self.dflt, self.strs, self.last, self.late = cx, F, sets, set(), {}, None, []

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.late.append((st, fr))

    def judge(self):
        for st, fr in self.late: self.final(st, fr)

    def final(self, st, fr):
        for f, kind in self.F.items():
            self.chk(f in st.mon['done'] or kind == 'stream' and self.unk, st, fr, 'init', 'resets %s' % f, None, '%s of the connection that had the slot before is kept (%s)' % (f, {'socket': 'not closed', 'stream': 'not cleared', 'state': 'not reset'}[kind]))
        n = len(self.sets)
        ok = self.lost or n <= len(set(st.mon['erased'])) and set(self.sets.values()) <= set(st.mon['erased']) or st.mon['n'] >= max(n, 1) and st.mon.get('lost') or st.mon['n'] >= 100
        self.chk(ok, st, fr, 'key', 'the callbacks of the slot are forgotten', None, 'keeps a callback of the connection that had the slot before')


class Key(Reset):
    """Under which key is a callback set or looked up?"""

    def __init__(self, cx): self.cx, self.F, self.dflt, self.strs, self.last, self.got = cx, {}, set(), {}, None, set()

    def on_call(self, st, fr, call):
        Reset.on_call(self, st, fr, call)
        if strip_t(call.q or '').endswith('callable_key') or strip_t(call.q or '').endswith('check_callable'):
            self.got.add(self.lit(st, call.args[-1]))


class Gone(Reset):
    def __init__(self, cx, F): self.cx, self.F, self.dflt, self.strs, self.last = cx, F, set(), {}, None

    def on_call(self, st, fr, call):
        Reset.on_call(self, st, fr, call)
        user = strip_t(call.q or '').endswith('check_callable') or call.name == 'operator()' and strip_t(call.cls or '') == 'std::function'
        if not user: return
        st.mon['n'] += 1
        for f, kind in self.F.items():
            if kind == 'stream' or f in ('work_flags', 'working'):
                self.chk(f in st.mon['done'], st, fr, 'gone', '%s is reset before the callback' % f, call.line, 'tells the disconnect while %s still holds what the lost connection left: a callback that connects again inherits (or loses) it' % f)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        self.chk(st.mon['n'] == 1, st, fr, 'gone', 'told once', None, 'runs the disconnect callback of the connection %d times' % st.mon['n'])
        for f, kind in self.F.items():
            if kind == 'stream' or f in ('work_flags', 'working'):
                self.chk(f in st.mon['done'], st, fr, 'gone', 'resets %s' % f, None, '%s still holds what the lost connection left' % f)


class Clear(Base):
    def init(self, st, fr): self.fn = fr.fn; st.mon['n'] = 0

    def on_call(self, st, fr, call):
        if call.name in ('consumer_clear', 'clear', 'reset') and call.obj and path_field(call.obj) == 'buffer': st.mon['n'] = 1

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'clear': st.mon['n'] = 1

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['n'], st, fr, 'stream', 'clearing empties the buffer', None, 'leaves bytes in the buffer of the stream')


class Lookup(Base):
    """The callback runs with the lock of the callbacks free, once if set."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0)

    def on_call(self, st, fr, call):
        if call.name == 'operator()' and strip_t(call.cls or '') == 'std::function':
            st.mon['n'] += 1
            self.chk(not st.locks, st, fr, 'key', 'callbacks run unlocked', call.line, 'runs a callback with the lock of all callbacks held: setting a callback in it would lock up')
            a = models.rv(self.eng, st, fr, call.args[0]) if call.args else None
            self.chk(a is not None and a[0] == 'prm', st, fr, 'key', 'the callback gets its connection', call.line, 'the callback is given another connection')

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['n'] <= 1, st, fr, 'key', 'the callback runs once', None, 'runs the callback more than once')


def run(cx):
    p = cx.p
    F = fields(p)
    own = lambda fn: (fn.scls or '').startswith(CB) and not fn.lambda_ or fn.file.endswith('connection/basic.cc') and not fn.scls and not strip_t(fn.sq).endswith(('callable_key', 'check_callable'))
    keys = {}
    for nm in ('set_connect_callback', 'set_disconnect_callback', 'on_connect', 'on_disconnect'):
        k = Key(cx)
        f = p.need(CB + '::' + nm)[0]
        cx.run(cx.engine([k], inline=own, merge_at=40), f)
        if len(k.got) != 1: raise AnalysisError('key of the callback in %s not found' % nm)
        keys[nm] = (next(iter(k.got)), f)
    for a, b in (('set_connect_callback', 'on_connect'), ('set_disconnect_callback', 'on_disconnect')):
        cx.check(keys[a][0] == keys[b][0], 'key', '%s is looked up under the key it is set under' % b, keys[b][1].where(), '%s looks for another callback than %s sets' % (short(keys[b][1]), short(keys[a][1])))
    cx.check(keys['set_connect_callback'][0] != keys['set_disconnect_callback'][0], 'key', 'the two events have different keys', keys['set_connect_callback'][1].where(), 'connect and disconnect callbacks share one key')
    ini = Init(cx, F, {n: keys[n][0] for n in ('set_connect_callback', 'set_disconnect_callback')})
    cx.run(cx.engine([ini], inline=own, merge_at=60), p.need(CB + '::init')[0])
    ini.judge()
    cx.run(cx.engine([Gone(cx, F)], inline=own, merge_at=60), p.need(CB + '::on_disconnect')[0])
    cx.run(cx.engine([Clear(cx)], inline=lambda fn: (fn.scls or '').startswith(ST), merge_at=20), p.need(ST + '::clear')[0])
    for f in p.all():
        if f.blocks and f.name == 'check_callable' and f.file.endswith('connection/basic.cc'): cx.run(cx.engine([Lookup(cx)], inline=lambda fn: False, merge_at=40), f)
