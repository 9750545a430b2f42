"""Which fields of a lock-owning class are touched under which locks.

Roots are the functions another thread can enter (public members, functions
handed out as callables, anything without a caller in the program); private
helpers are analysed in the context of their callers, so "caller holds the
lock" conventions need no annotation.
"""
import re
from .lib import *

MUTEX = re.compile(r'std::(recursive_|shared_|timed_|recursive_timed_)?mutex\b')


def frames(fr):
    while fr is not None:
        yield fr
        fr = fr.parent


def guard_table(prog, table):
    """table: {class: [(field, type regex)]}; a class written 'A>B' is the type
    A of a member struct of B, guarded by B's mutex.  Resolved against the
    current records; a renamed field is found again by its (unique) type."""
    out, mut = {}, {}
    for key, fields in table.items():
        cls, _, owner = key.partition('>')
        rec = prog.record(cls)
        if rec is None: raise AnalysisError('anchor vanished: class ' + cls)
        orec = prog.record(owner) if owner else rec
        if orec is None: raise AnalysisError('anchor vanished: class ' + owner)
        fs = {f['name']: f['t'] for f in rec['fields']}
        mut[cls] = {f['name'] for f in orec['fields'] if MUTEX.search(f['t'])}
        up = 1 if owner else 0
        named = {f for f, _ in fields}
        for f, rx in fields:
            if f in fs:
                if fs[f].startswith('std::atomic'): continue      # needs no lock
                out[cls + '::' + f] = (cls, f, owner or cls, up)
                continue
            cand = [g for g, t in fs.items() if g not in named and re.search(rx, t)]
            if len(cand) == 1:
                if not fs[cand[0]].startswith('std::atomic'): out[cls + '::' + cand[0]] = (cls, cand[0], owner or cls, up)
            elif not cand and any(t.startswith('std::atomic') for t in fs.values()): continue
            else: raise AnalysisError('anchor vanished: %s::%s' % (cls, f))
    return out, mut


class Collect:
    """Record every mention of a guarded field, with the locks held."""

    def __init__(self, fields, mut, globals_=()):
        self.fields, self.mut, self.globals = fields, mut, set(globals_)
        self.acc = {}
        self.entered = set()
        self.root = None

    def on_enter(self, st, fr, call): self.entered.add(fr.fn.fid)

    def on_member(self, st, fr, loc, q, line, node, nid):
        k = self.fields.get(strip_t(q))
        if not k or not loc or loc[0] != 'f': return
        cls, f, owner, up = k
        base = loc[1]
        if up:
            if base[0] != 'f': return
            base = base[1]
        held = tuple(sorted({m[2] for m in st.locks if m[0] == 'f' and m[1] == base and m[2] in self.mut[cls]}))
        if any((x.fn.ctor or x.fn.dtor) and x.fn.scls and (owner == x.fn.scls or owner.startswith(x.fn.scls + '::')) for x in frames(fr)): return
        if loc_root(base)[0] in ('v', 't'): return                  # an object no other thread can see
        self.add((cls, f), held, fr, line, st)

    def add(self, key, held, fr, line, st):
        self.acc.setdefault(key, {}).setdefault((held, fr.fn.where(line), self.root), (short(fr.fn), [x.fn.where() + ' ' + short(x.fn) for x in frames(fr)], st.trace_list()))

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if loc and loc[0] == 'g' and loc[1] in self.globals and op != 'ctor':
            held = tuple(sorted(m[1] for m in st.locks if m[0] == 'g'))
            self.add(('', loc[1]), held, fr, call.line, st)


def is_root(prog, fn, callers):
    """May another thread enter this function directly?"""
    if fn.nocfg or not fn.blocks or '/drivers/' in fn.file: return False
    if fn.ctor or fn.dtor: return False
    if fn.lambda_: return False                                     # decided after the contextual pass
    if fn.scls:
        rec = prog.record(fn.scls)
        if rec and rec.get('file', '').endswith('.cc'): return False
        return fn.acc == 0
    return fn.ext


def mentions_global(fn, names):
    for n in fn.nodes:
        if n and n['k'] == 'DeclRefExpr' and strip_t(n.get('d', {}).get('q', '')) in names: return True
    return False


def collect(cx, fields, mut, globals_=(), deny=(), depth=14):
    prog = cx.p
    col = Collect(fields, mut, globals_)
    owners = {k[2] for k in fields.values()} | {k[0] for k in fields.values()}
    names = allcls(prog)
    mods = owners | {o.rsplit('::', 1)[0] for o in owners if o.rsplit('::', 1)[0] in names}
    files = {prog.record(o)['file'] for o in owners} | {prog.gvars[g]['file'] for g in globals_ if g in prog.gvars}

    def touches(fn): return mentions_field(fn, fields) or (globals_ and mentions_global(fn, globals_))

    def inl(fn):
        if fn.sq in deny: return False
        if touches(fn): return True
        if fn.lambda_: return fn.file in files or any(in_mod(fn, m) for m in mods)
        if any(x in fn.file for x in NOISE): return False
        if fn.scls in mods: return not is_root(prog, fn, None) or calls_lock(fn) or small(fn)
        if fn.file in files and not fn.ext: return True
        return small(fn)
    callers = prog.callers()
    reach = reaching(prog, touches)
    near = [f for f in prog.all() if f.fid in reach and f.blocks and not f.nocfg and '/drivers/' not in f.file and
            (f.scls in mods or touches(f) or f.file in files or any(in_mod(f, m) for m in mods))]
    done = set()

    def go(f):
        done.add(f.fid)
        e = cx.engine([col], inline=inl, max_steps=400000, virt_all=True, max_depth=depth, merge_at=2)
        col.root = f.fid
        cx.run(e, f)
    for f in near:
        if is_root(prog, f, callers): go(f)
    for f in near:
        if f.ctor: go(f)                   # helpers of construction are entered here
    # other entry points: closures that escape into threads, executors, callbacks
    for f in near:
        if f.lambda_ and f.fid not in col.entered and f.fid not in done: go(f)
    # whatever is left is entered from outside the module (friends, virtual bases)
    left = [f for f in near if f.fid not in done and f.fid not in col.entered and not f.ctor and not f.dtor and not f.lambda_]
    ids = {f.fid for f in left}
    left.sort(key=lambda f: bool(callers.get(f.fid, set()) & ids))
    for f in left:
        if f.fid in col.entered or f.fid in done: continue
        if not callers.get(f.fid) and not f.virt and not f.ov: continue         # dead code
        go(f)
    col.roots = done
    return col


def judge(cx, col, exempt=lambda key, where, fn: None):
    """Every guarded field has one mutex held at every access."""
    n = 0
    for key, accs in sorted(col.acc.items()):
        live = {k: v for k, v in accs.items() if not exempt(key, k[1], v[0])}
        sets = [set(k[0]) for k in live]
        if not sets: continue
        common = set.intersection(*sets)
        cnt = {}
        for x in sets:
            for m in x: cnt[m] = cnt.get(m, 0) + 1
        best = max(cnt, key=lambda m: (cnt[m], m)) if cnt else None
        nm = (key[0].replace('plain::', '') + '.' if key[0] else '') + key[1]
        for (held, where, root), (fn, stack, tr) in sorted(live.items()):
            ok = bool(common) or (best is not None and best in held)
            n += 1
            cx.check(ok, 'guarded access', '%s in %s' % (nm, fn), where,
                     '%s is accessed in %s without %s (entered through %s)' % (nm, fn, 'its lock ' + best if best else 'any lock', stack[-1]), stack)
    return n


def allcls(prog):
    return {strip_t(r['q']) for r in prog.records.values()}


def in_mod(fn, m): return fn.sq.startswith(m + '::')


def calls_lock(fn):
    for n in fn.nodes:
        if n and n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXMemberCallExpr') and re.search(r'^std::(unique_lock|lock_guard|scoped_lock|shared_lock|mutex|recursive_mutex)\b', strip_t(n.get('q', ''))):
            return True
    return False
