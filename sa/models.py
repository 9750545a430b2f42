"""Models of the standard library as used by the code base.  A model returns
a list of (state, value, kind) or None when the call is not modelled."""
import re
from .values import *

SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::weak_ptr', 'std::__weak_ptr',
         'std::__uniq_ptr_impl', 'std::__uniq_ptr_data')
LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::recursive_timed_mutex', 'std::__mutex_base',
         'std::__recursive_mutex_base')
CONT = ('std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::map', 'std::unordered_map', 'std::set',
        'std::unordered_set', 'std::multiset', 'std::multimap', 'std::queue', 'std::array', 'std::span', 'std::basic_string_view',
        'std::priority_queue', 'std::stack', 'std::initializer_list')
ITER = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::_List_(const_)?iterator|std::_Deque_iterator|'
                  r'std::__detail::_Node_(const_)?iterator(_base)?|std::reverse_iterator|std::move_iterator)$')
ALGOS = ('for_each', 'for_each_n', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'remove_if', 'erase_if', 'transform',
         'generate', 'generate_n', 'accumulate', 'call_once', 'invoke', 'apply', 'visit', 'sort', 'stable_sort', 'partition', 'copy_if')


def one(st, v): return [(st, v, 'ret')]


def P(loc): return ('f', loc, '#p')          # pointee of a smart pointer
def SZ(loc): return ('f', loc, '#size')


def size_of(eng, st, loc):
    v = st.read(SZ(loc))
    if v[0] == 'ref': v = st.read(v[1])
    if v[0] == 'ld': SYMW.setdefault(v, 64)
    return v


def set_size(st, loc, v):
    st.mem[SZ(loc)] = v


def base(q): return q.rsplit('::', 1)


def rv(eng, st, fr, v, line=0):
    return eng.load(st, fr, v[1], line) if v[0] == 'lv' else v


def moved(fn, nid):
    """Is the expression a std::move(...)?"""
    for _ in range(8):
        if nid is None or nid < 0: return False
        n = fn.nodes[nid]
        if n.get('q') == 'std::move': return True
        ch = n.get('c', ())
        if len(ch) != 1: return False
        nid = ch[0]
    return False


def copy_ctor(eng, st, fr, cl, src):
    """Copy/move construction of an object without a user body."""
    q = cl.q
    cls = q.rsplit('::', 1)[0]
    st.copy_obj(src, cl.obj)
    if cl.node.get('cc') == 'move':
        eng.ev('move', st, fr, src=src, dst=cl.obj, line=cl.line)
        if cls in SMART or cls == 'std::coroutine_handle':
            if cls in SMART: st.mem[P(src)] = FALSE
        elif cls in CONT:
            set_size(st, src, FALSE)
        elif cls == 'std::unique_lock':
            v = st.mem.get(src)
            if v is not None and v[0] == 'lk': st.mem[src] = ('lk', v[1], False)
    else:
        eng.ev('copy', st, fr, src=src, dst=cl.obj, line=cl.line)
    return True


def apply(eng, st, fr, cl):
    q = cl.q
    if not q or q == '#indirect':
        if q == '#indirect':
            eng.ev('usercall', st, fr, call=cl)
        return None
    if q.endswith('::operator=') and not q.startswith('std::') and len(cl.args) == 1 and cl.obj is not None and eng.p.fn(cl.node.get('fid')) is None \
            and cl.args[0][0] == 'lv' and cl.pt and strip_type(cl.pt[0]) == q[:-11]:          # implicit copy / move assignment
        eng.ev('write', st, fr, loc=cl.obj, v=None, line=cl.line, init=False)
        st.copy_obj(cl.args[0][1], cl.obj)
        return one(st, ('lv', cl.obj))
    if not (q.startswith('std::') or q.startswith('__gnu_cxx') or cl.obj is None or q.startswith('operator')):
        return None
    cls, name = q.rsplit('::', 1) if '::' in q else ('', q)
    A = cl.args
    node = cl.node
    isctor = node['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')

    if eng.chrono:
        r = chrono(eng, st, fr, cl, cls, name, A, isctor)
        if r is not None: return r
    if eng.iter_idx:
        r = indexed(eng, st, fr, cl, cls, name, A, isctor)
        if r is not None: return r
    # ---- free functions ----
    if cl.obj is None:
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::forward_like', 'std::move_if_noexcept') and len(A) == 1:
            return one(st, A[0])
        if q == 'std::make_move_iterator' and len(A) == 1: return one(st, objval(eng, st, fr, A[0]))
        if q in ('std::back_inserter', 'std::inserter') and A and A[0][0] == 'lv':
            return one(st, ('bins', A[0][1], q))
        if q in ('std::move', 'std::copy') and len(A) == 3:
            o = objval(eng, st, fr, A[2])
            if o[0] == 'bins':
                d = o[1]
                if eng.iter_idx:
                    e = ('t', fr.ctx, (cl.nid, 'e')); st.clear_prefix(e)
                    st.mem[e] = ('itc', d); st.mem[('f', e, POS)] = size_of(eng, st, d)
                    e = ('lv', e)
                else: e = ('it', d, ('end',))
                eng.ev('cont', st, fr, op='insert', loc=d, args=[e, A[0], A[1]], call=cl)
                i, j = (itc(st, x[1]) if x[0] == 'lv' else None for x in A[:2])
                s0 = size_of(eng, st, d)
                if i and j and i[1] == j[1]: set_size(st, d, add(s0, sub(st.read(('f', j[0], POS)), st.read(('f', i[0], POS)))))
                else:
                    x = ('opq', 'sz') + eng.site(fr, cl.nid); SYMW.setdefault(x, 64)
                    set_size(st, d, x); st.facts = st.facts.assume(ge0(sub(x, s0))) or st.facts
                return one(st, o)
        if q in ('std::addressof', 'std::__addressof') and A[0][0] == 'lv': return one(st, ('addr', A[0][1]))
        if q == 'std::exchange' and len(A) == 2:
            if A[0][0] == 'lv':
                loc = A[0][1]
                nv = A[1]
                t = ('t', fr.ctx, cl.nid)
                cur = st.mem.get(loc)
                tt = fr.fn.nodes[cl.nid].get('t', '')
                from .engine import classlike
                if classlike(tt) and 'w' not in node:
                    st.copy_obj(loc, t)
                    eng.ev('exchange', st, fr, loc=loc, new=nv, line=cl.line)
                    nt = fr.fn.nodes[cl.anodes[1]].get('t', '')
                    if strip_type(tt) in SMART and ('nullptr_t' in nt or nt == 'nullptr_t'): st.clear_prefix(loc); st.mem[P(loc)] = FALSE
                    elif nv[0] == 'lv': st.copy_obj(nv[1], loc)
                    else: st.clear_prefix(loc); st.mem[loc] = nv
                    return one(st, ('lv', t))
                old = eng.load(st, fr, loc, cl.line)
                eng.ev('read', st, fr, loc=loc, v=old, line=cl.line)
                eng.store(st, fr, loc, rv(eng, st, fr, nv), cl.line)
                return one(st, old)
        if q == 'std::swap' and len(A) == 2 and A[0][0] == 'lv' and A[1][0] == 'lv':
            swap(eng, st, fr, cl, A[0][1], A[1][1]); return one(st, ('sym', 'void'))
        if q in ('std::min', 'std::max') and len(A) == 2:
            a, b = rv(eng, st, fr, A[0]), rv(eng, st, fr, A[1])
            out = []
            for first in (True, False):
                cnd = cmp('<=' if q == 'std::min' else '>=', a, b)
                f = st.facts.assume(cnd, first)
                if f is None: continue
                s = st.copy(); s.facts = f
                out.append((s, a if first else b, 'ret'))
            return out
        if q in ('plain::ntoh', 'plain::hton', 'plain::byteswap') and len(A) == 1 and 'w' in node and eng.model_endian:
            v = rv(eng, st, fr, A[0])
            w = abs(node['w'])
            if w == 8: return one(st, v)
            if v[0] == 'bswap' and v[1] == w: return one(st, v[2])
            r = ('bswap', w, v); SYMW.setdefault(r, node['w'])
            return one(st, r)
        if name in ('__bswap_16', '__bswap_32', '__bswap_64', 'htons', 'ntohs', 'htonl', 'ntohl') and cls in ('',):
            v = rv(eng, st, fr, A[0])
            w = {'16': 16, '32': 32, '64': 64, 'htons': 16, 'ntohs': 16, 'htonl': 32, 'ntohl': 32}[name[-2:] if name.startswith('__') else name]
            if v[0] == 'bswap' and v[1] == w: return one(st, v[2])
            r = ('bswap', w, v); SYMW.setdefault(r, w)
            return one(st, r)
        if q in ('std::abs', 'abs', 'labs', 'llabs') and len(A) == 1 and 'w' in node:
            v = rv(eng, st, fr, A[0])
            if v[0] == 'c': return one(st, c(abs(v[1])))
            out = []
            for pos in (True, False):
                f = st.facts.assume(ge0(v), pos)
                if f is None: continue
                if not pos and eng.wrap and node['w'] < 0:          # the minimum has no positive counterpart
                    mn = c(-(1 << (-node['w'] - 1)))
                    g = f.assume(eq0(sub(v, mn)), True)
                    if g is not None and interval(f, v)[0] in (None, mn[1]):
                        s = st.copy(); s.facts = g
                        out.append((s, mn, 'ret'))
                    f = f.assume(eq0(sub(v, mn)), False)
                    if f is None: continue
                s = st.copy(); s.facts = f
                out.append((s, v if pos else neg(v), 'ret'))
            return out
        if q in ('std::make_unique', 'std::make_shared', 'std::allocate_shared'):
            t = ('t', fr.ctx, cl.nid)
            st.clear_prefix(t)
            p = ('new',) + eng.site(fr, cl.nid) + (node.get('t', ''),)
            st.mem[P(t)] = p
            eng.ev('make', st, fr, call=cl, ptr=p, loc=t)
            if len(A) == 1 and A[0][0] == 'lv':
                cv = st.read(A[0][1])
                st.mem[('f', ('d', p), '#arg0')] = ('ref', A[0][1])
            return one(st, ('lv', t))
        if cls == 'std' and name in ('operator==', 'operator!=') and len(A) == 2:
            a, b = objval(eng, st, fr, A[0]), objval(eng, st, fr, A[1])
            return one(st, cmp(name[-2:], a, b))
        if name in ('operator==', 'operator!=') and cls in ('__gnu_cxx', 'std::__detail', '') and len(A) == 2:
            a, b = objval(eng, st, fr, A[0]), objval(eng, st, fr, A[1])
            return one(st, cmp(name[-2:], a, b))
        if cls == 'std' and name in ALGOS:
            for i, a in enumerate(A):
                if a[0] == 'lv':
                    cv = st.read(a[1])
                    if cv[0] == 'clos':
                        out = []
                        must = name in ('invoke',)
                        args = A[1:] if name == 'invoke' else None
                        if eng.iter_idx and name == 'for_each' and i == 2:
                            X = [itc(st, y[1]) if y[0] == 'lv' else None for y in A[:2]]
                            if X[0] and X[1] and X[0][1] == X[1][1]:
                                C = X[0][1]
                                whole = st.read(('f', X[0][0], POS)) == FALSE and st.read(('f', X[1][0], POS)) == size_of(eng, st, C)
                                args = [('lv', ('i', C, ('sym', 'each' if whole else 'some')))]
                                if whole:
                                    must = True
                                    f = st.facts.assume(eq0(size_of(eng, st, C)))
                                    if f is not None:
                                        s0 = st.copy(); s0.facts = f
                                        out.append((s0, ('sym', 'void'), 'ret'))
                        for s, kind, x in eng.call_closure(st, fr, cv, args, cl, 'once' if must else 'maybe'):
                            if kind == 'go':
                                v = ('call', q) + eng.site(fr, cl.nid)
                                if 'w' in node: SYMW.setdefault(v, node['w'])
                                out.append((s, v, 'ret'))
                            else: out.append((s, x, kind))
                        return out
            if name == 'invoke':
                eng.ev('usercall', st, fr, call=cl)
                return None
        if cls == 'std' and name in ('begin', 'end', 'size', 'data', 'empty', 'cbegin', 'cend', 'ssize') and len(A) == 1 and A[0][0] == 'lv':
            return cont(eng, st, fr, cl, A[0][1], name, [])
        if q == 'std::get' and A and A[0][0] == 'lv':
            return one(st, ('lv', ('f', A[0][1], 'get@' + node.get('t', ''))))
        if q in ('std::make_pair', 'std::make_tuple', 'std::tie') and len(A) == 2:
            t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
            for nm, a in zip(('first', 'second'), A):
                if a[0] == 'lv': st.copy_obj(a[1], ('f', t, nm))
                else: st.mem[('f', t, nm)] = a
            return one(st, ('lv', t))
        if q in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast') and A and A[0][0] == 'lv':
            t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
            st.mem[P(t)] = st.read(P(A[0][1]))
            return one(st, ('lv', t))
        if q == 'std::to_underlying': return one(st, rv(eng, st, fr, A[0]))
        if q in ('std::rethrow_exception', 'std::terminate', 'abort', 'std::abort', 'exit', '__assert_fail'):
            return [(st, ('exc', '?'), 'throw')] if q == 'std::rethrow_exception' else [(st, None, 'noret')]
        return None

    O = cl.obj
    # ---- locks ----
    if cls in LOCKS:
        if isctor:
            if not A:
                st.mem[O] = ('lk', (), False); return one(st, ('lv', O))
            ms, held = [], True
            for i, a in enumerate(A):
                t = strip(cl.pt[i]) if i < len(cl.pt) else ''
                if 'defer_lock' in t: held = False
                elif 'try_to_lock' in t or 'adopt_lock' in t:
                    if 'adopt' in t: held = 'adopt'
                    else: held = 'try'
                elif a[0] == 'lv' and 'std::unique_lock' not in t: ms.append(canon_mutex(st, a[1]))
            if held is True:
                for m in ms: eng.lock(st, fr, m, cl.line)
                st.mem[O] = ('lk', tuple(ms), True)
            elif held == 'adopt':
                st.mem[O] = ('lk', tuple(ms), True)
            elif held == 'try':
                s2 = st.copy(); s2.mem[O] = ('lk', tuple(ms), False)
                for m in ms: eng.lock(st, fr, m, cl.line)
                st.mem[O] = ('lk', tuple(ms), True)
                return [(st, ('lv', O), 'ret'), (s2, ('lv', O), 'ret')]
            else:
                st.mem[O] = ('lk', tuple(ms), False)
            return one(st, ('lv', O))
        v = st.mem.get(O)
        if v is None or v[0] != 'lk':
            # a lock object received from elsewhere: symbolic mutex, assumed held
            v = ('lk', (('d', ('sym', 'lockof', O)),), True)
        if name == 'unlock':
            if v[2]:
                for m in v[1]: eng.unlock(st, fr, m, cl.line)
            st.mem[O] = ('lk', v[1], False)
            return one(st, ('sym', 'void'))
        if name == 'lock':
            for m in v[1]: eng.lock(st, fr, m, cl.line)
            st.mem[O] = ('lk', v[1], True)
            return one(st, ('sym', 'void'))
        if name in ('owns_lock', 'operator bool'): return one(st, TRUE if v[2] else FALSE)
        if name == 'operator=': 
            return one(st, ('lv', O))
        return None
    if cls in MUTEX:
        if name == 'lock': eng.lock(st, fr, canon_mutex(st, O), cl.line); return one(st, ('sym', 'void'))
        if name == 'unlock': eng.unlock(st, fr, canon_mutex(st, O), cl.line); return one(st, ('sym', 'void'))
        if name == 'try_lock':
            s2 = st.copy()
            eng.lock(st, fr, canon_mutex(st, O), cl.line)
            return [(st, TRUE, 'ret'), (s2, FALSE, 'ret')]
        return None
    if cls in ('std::condition_variable', 'std::condition_variable_any'):
        if name in ('wait', 'wait_for', 'wait_until'):
            return cv_wait(eng, st, fr, cl)
        if name in ('notify_one', 'notify_all'):
            eng.ev('notify', st, fr, cv=O, all=name == 'notify_all', line=cl.line)
            return one(st, ('sym', 'void'))
    if cls in ('std::counting_semaphore', 'std::__semaphore_base', 'std::__platform_semaphore', 'std::__semaphore_impl', 'std::__atomic_semaphore'):
        if name == 'release':
            eng.ev('notify', st, fr, cv=O, all=False, line=cl.line, sem=True, n=A[0] if A else c(1))
            return one(st, ('sym', 'void'))
        if name.startswith('acquire') or name.startswith('try_acquire'):
            eng.ev('semwait', st, fr, sem=O, line=cl.line)
            v = ('call', q) + eng.site(fr, cl.nid)
            if 'w' in node: SYMW.setdefault(v, node['w'])
            return one(st, v)
    # ---- atomics ----
    if cls in ('std::atomic', 'std::__atomic_base', 'std::atomic_ref', 'std::__atomic_float', 'std::atomic_flag'):
        return atomic(eng, st, fr, cl, O, name, isctor)
    # ---- smart pointers ----
    if cls in SMART:
        return smart(eng, st, fr, cl, O, cls, name, isctor)
    if cls == 'std::function':
        return function(eng, st, fr, cl, O, name, isctor)
    if cls in CONT or cls in ('std::_Rb_tree', 'std::_Hashtable', 'std::_Vector_base', 'std::__cxx11::list'):
        if isctor:
            if not A: set_size(st, O, FALSE)
            elif len(A) >= 1 and cls in ('std::vector', 'std::basic_string') and 'w' in fr.fn.nodes[cl.anodes[0]] and len(A) <= 3:
                set_size(st, O, rv(eng, st, fr, A[0]))
            elif cls in ('std::basic_string', 'std::basic_string_view') and len(A) >= 2 and 'w' in fr.fn.nodes[cl.anodes[1]]:
                set_size(st, O, rv(eng, st, fr, A[1]))
                st.mem[('f', O, '#data')] = rv(eng, st, fr, A[0])
            eng.ev('cont', st, fr, op='ctor', loc=O, args=A, call=cl)
            return one(st, ('lv', O))
        return cont(eng, st, fr, cl, O, name, A)
    if ITER.match(cls):
        return iterator(eng, st, fr, cl, O, name, A, isctor)
    if cls in ('std::optional', 'std::_Optional_base_impl', 'std::_Optional_base'):
        if isctor:
            if A and A[0][0] == 'lv': st.copy_obj(A[0][1], ('f', O, '#v'))
            elif A: st.mem[('f', O, '#v')] = A[0]
            st.mem[('f', O, '#has')] = TRUE if A and 'nullopt' not in (cl.pt[0] if cl.pt else '') else FALSE
            return one(st, ('lv', O))
        if name in ('operator bool', 'has_value'):
            v = st.read(('f', O, '#has'))
            SYMW.setdefault(v, 8)
            return one(st, truthy(v))
        if name in ('operator*', 'value'): return one(st, ('lv', ('f', O, '#v')))
        if name == 'operator->': return one(st, ('addr', ('f', O, '#v')))
    if cls == 'std::bitset' or cls == 'std::bitset::reference':
        return bitset(eng, st, fr, cl, O, cls, name, isctor)
    if cls == 'std::pair' and isctor and len(A) == 2:
        for nm, a in zip(('first', 'second'), A):
            if a[0] == 'lv': st.copy_obj(a[1], ('f', O, nm))
            else: st.mem[('f', O, nm)] = a
        return one(st, ('lv', O))
    if cls in ('std::thread', 'std::jthread') and isctor and A:
        eng.ev('thread', st, fr, call=cl, args=A)
        return one(st, ('lv', O))
    if isctor and not A:
        return None
    # assignment of library objects without own body
    if name == 'operator=' and len(A) == 1 and q.startswith('std::'):
        if A[0][0] == 'lv':
            eng.ev('write', st, fr, loc=O, v=None, line=cl.line, init=False)
            st.copy_obj(A[0][1], O)
            if moved(fr.fn, cl.anodes[-1]): eng.ev('move', st, fr, src=A[0][1], dst=O, line=cl.line)
        else:
            eng.ev('write', st, fr, loc=O, v=A[0], line=cl.line, init=False)
            st.clear_prefix(O); st.mem[O] = A[0]
        return one(st, ('lv', O))
    return None


TM = '#t'                                       # count of a duration or time point, in its own unit
DUR = re.compile(r'std::chrono::duration<[^<>]*?(?:, std::ratio<(\d+)(?:, (\d+))?>)?>')


def unit(t):
    """Nanoseconds per tick of a duration or time point type."""
    m = DUR.search(t or '')
    if not m: return None
    n, d = int(m.group(1) or 1), int(m.group(2) or 1)
    return 10 ** 9 * n // d if 10 ** 9 * n % d == 0 else None


def chrono(eng, st, fr, cl, cls, name, A, isctor):
    q = cl.q
    def typ(i): return fr.fn.nodes[cl.anodes[i]].get('t', '')
    def tv(a, t, u):
        """Count of operand a (of type t) in unit u."""
        x = unit(t)
        if a[0] != 'lv' or x is None: return None
        v = st.read(('f', a[1], TM)); SYMW.setdefault(v, 64)
        if x % u == 0: return scale(v, x // u)
        return None
    def res(v, f=TM):
        t = ('t', fr.ctx, cl.nid)
        st.clear_prefix(t); st.mem[('f', t, f)] = v
        return one(st, ('lv', t))
    if cls in ('std::chrono::duration', 'std::chrono::time_point'):
        O = cl.obj
        if isctor and cl.node.get('cc'): return None
        if isctor:
            if not A: st.mem[('f', O, TM)] = FALSE; return one(st, ('lv', O))
            if unit(typ(0)) is None:
                v = rv(eng, st, fr, A[0])
                st.clear_prefix(O); st.mem[('f', O, TM)] = v; SYMW.setdefault(v, 64)
                return one(st, ('lv', O))
            v = tv(A[0], typ(0), unit(cl.node.get('t', '')) or 1)
            if v is None: return None
            st.clear_prefix(O); st.mem[('f', O, TM)] = v
            return one(st, ('lv', O))
        if name == 'count':
            v = st.read(('f', O, TM)); SYMW.setdefault(v, 64); return one(st, v)
        if name == 'time_since_epoch':
            v = st.read(('f', O, TM)); SYMW.setdefault(v, 64); return res(v)
        if name in ('zero', 'min', 'max'): return None
        if name in ('operator+=', 'operator-=') and len(A) == 1:
            u = unit(typ(0)) if O else None
            v = tv(A[0], typ(0), u or 1)
            return None                                  # unit of the object is not known here
    if q in ('std::chrono::operator+', 'std::chrono::operator-') and len(A) == 2:
        u = unit(cl.node.get('t', ''))
        if u is None: return None
        a, b = tv(A[0], typ(0), u), tv(A[1], typ(1), u)
        if a is None or b is None: return None
        return res(add(a, b) if name == 'operator+' else sub(a, b))
    if q in ('std::chrono::operator<=>', 'std::chrono::operator==', 'std::chrono::operator<', 'std::chrono::operator<=', 'std::chrono::operator>', 'std::chrono::operator>=',
             'std::chrono::operator!=') and len(A) == 2:
        u = min(unit(typ(0)) or 1, unit(typ(1)) or 1)
        a, b = tv(A[0], typ(0), u), tv(A[1], typ(1), u)
        if a is None or b is None: return None
        if name == 'operator<=>': return res(sub(a, b), '#cmp')
        return one(st, cmp(name[8:], a, b))
    if q in ('std::operator<', 'std::operator<=', 'std::operator>', 'std::operator>=', 'std::operator==', 'std::operator!=') and len(A) == 2:
        for i, o in ((0, name[8:]), (1, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(name[8:], name[8:]))):
            if A[i][0] == 'lv' and ('f', A[i][1], '#cmp') in st.mem: return one(st, cmp(o, st.mem[('f', A[i][1], '#cmp')], FALSE))
    if q in ('std::chrono::duration_cast', 'std::chrono::time_point_cast') and len(A) == 1:
        u = unit(cl.node.get('t', ''))
        v = tv(A[0], typ(0), u) if u else None
        return None if v is None else res(v)
    return None


def strip(t): return t


def strip_type(t):
    from .program import strip_t
    return strip_t(t.replace('const ', '').rstrip('& ').strip())


def canon_mutex(st, loc):
    return loc


def objval(eng, st, fr, a):
    """A comparable value for an object operand."""
    if a[0] != 'lv': return a
    loc = a[1]
    v = st.mem.get(loc)
    if v is not None:
        if v[0] == 'ref': return objval(eng, st, fr, ('lv', v[1]))
        return v
    if P(loc) in st.mem: return st.mem[P(loc)]
    return st.read(loc)


def swap(eng, st, fr, cl, a, b):
    t = ('t', fr.ctx, ('sw', cl.nid))
    eng.ev('swap', st, fr, a=a, b=b, line=cl.line)
    sa, sb = size_val(st, a), size_val(st, b)
    st.copy_obj(a, t); st.copy_obj(b, a); st.copy_obj(t, b)
    st.clear_prefix(t)
    if mentioned(st, sa) or mentioned(st, sb): st.mem[SZ(a)], st.mem[SZ(b)] = sb, sa


def mentioned(st, s):
    def has(x): return isinstance(x, tuple) and (x == s or any(has(y) for y in x))
    return any(has(f) for f in st.facts.s)


def size_val(st, loc): return st.read(SZ(loc))


def cv_wait(eng, st, fr, cl):
    A = cl.args
    lk = A[0][1] if A and A[0][0] == 'lv' else None
    v = st.mem.get(lk) if lk is not None else None
    ms = v[1] if v is not None and v[0] == 'lk' else ()
    pred = None
    for a in A[1:]:
        if a[0] == 'lv':
            x = st.read(a[1])
            if x[0] == 'clos': pred = x
    name = cl.name
    eng.ev('wait', st, fr, cv=cl.obj, mutexes=ms, pred=pred, timed=name != 'wait', line=cl.line, call=cl)
    if pred is None:
        for m in ms: eng.unlock(st, fr, m, cl.line)
        for m in ms: eng.lock(st, fr, m, cl.line)
        vv = ('call', cl.q) + eng.site(fr, cl.nid)
        return one(st, vv)
    # predicate evaluated with the lock held; on exit it is true (or timeout)
    out = []
    for m in ms: eng.unlock(st, fr, m, cl.line)
    for m in ms: eng.lock(st, fr, m, cl.line)
    fn = eng.p.fn(pred[1])
    if fn is None or not eng.can_inline(fr, fn):
        return one(st, ('call', cl.q) + eng.site(fr, cl.nid))
    fake = ('pw', cl.nid)
    rs = eng.inline(st, fr, fn, pred[3], [], fake, cl.line, dict(pred[2]), None, False)
    for s, kind, x in rs:
        if kind != 'go': out.append((s, x, kind)); continue
        pv = s.env.pop(fake, ('sym', 'void'))
        if pv[0] == 'lv': pv = eng.load(s, fr, pv[1], cl.line)
        t = truthy(pv)
        f = s.facts.assume(t)
        if f is not None:
            s1 = s.copy(); s1.facts = f
            out.append((s1, TRUE, 'ret'))
        if name != 'wait':
            f = s.facts.assume(t, False)
            if f is not None:
                s2 = s.copy(); s2.facts = f
                out.append((s2, FALSE, 'ret'))
    return out


def bitset(eng, st, fr, cl, O, cls, name, isctor):
    """Bit sets as unsigned integers of their width."""
    from .engine import icast
    A, node = cl.args, cl.node
    B = lambda loc: ('f', loc, '#bits')
    if cls.endswith('reference'):
        if name == 'operator bool': return one(st, truthy(st.read(O)))
        return None
    t = node.get('t', '') if isctor else fr.fn.nodes[node['obj']].get('t', '') if 'obj' in node else ''
    m = re.search(r'bitset<(\d+)', t)
    if not m: return None
    w = int(m.group(1))
    if isctor:
        st.mem[B(O)] = icast(rv(eng, st, fr, A[0]), 64, w, st) if A else FALSE
        return one(st, ('lv', O))
    cur = st.read(B(O))
    SYMW.setdefault(cur, w)
    if name in ('operator|=', 'operator&=', 'operator^='):
        o = st.read(B(A[0][1])) if A[0][0] == 'lv' else A[0]
        r = eng.bitop(st, w, name[8], cur, o)
        if r is None:
            r = ('op', name[8], cur, o); SYMW.setdefault(r, w)
        st.mem[B(O)] = join_bytes(st.facts, r)
        return one(st, ('lv', O))
    if name in ('to_ulong', 'to_ullong'): return one(st, cur)
    if name == 'operator~':
        t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
        st.mem[B(t)] = sub(c((1 << w) - 1), cur)
        return one(st, ('lv', t))
    if name in ('operator[]', 'test'):
        i = rv(eng, st, fr, A[0])
        if i[0] == 'c' and i[1] == w - 1: return one(st, ge0(sub(cur, c(1 << (w - 1)))))
        r = ('op', 'bit', cur, i); SYMW.setdefault(r, 8)
        return one(st, truthy(r))
    return None


def atomic(eng, st, fr, cl, O, name, isctor):
    A = cl.args
    node = cl.node
    from .engine import CtxId

    def order(i, d='seq_cst'):
        if i < len(A) and A[i][0] == 'c':
            return ('relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst')[A[i][1]] if 0 <= A[i][1] < 6 else d
        return d

    def val(i):
        return rv(eng, st, fr, A[i])
    fresh = ('at', O) + eng.site(fr, cl.nid)
    if 'w' in node: SYMW.setdefault(fresh, node['w'])
    if isctor:
        if A: st.mem[O] = val(0)
        else: st.mem[O] = FALSE
        return one(st, ('lv', O))
    if getattr(eng, 'seq_atomics', False):
        # one thread at a time: an atomic is a plain location
        old = st.read(O)
        if 'w' in node: SYMW.setdefault(old, node['w'])
        if name == 'load' or name.startswith('operator ') or name == 'test': return one(st, old)
        new = res = None
        if name in ('store', 'operator='): new = res = val(0)
        elif name in ('exchange', 'test_and_set'): new, res = (val(0) if name == 'exchange' else TRUE), old
        elif name in ('fetch_add', 'operator++', 'operator+=', 'fetch_sub', 'operator--', 'operator-='):
            d = val(0) if A and name not in ('operator++', 'operator--') else c(1)
            new = add(old, d) if name in ('fetch_add', 'operator++', 'operator+=') else sub(old, d)
            res = old if name.startswith('fetch') or (A and name in ('operator++', 'operator--')) else new
        if new is not None:
            eng.ev('write', st, fr, loc=O, v=new, line=cl.line, init=False)
            st.mem[O] = new
            return one(st, res)
    if name == 'load' or name.startswith('operator ') or name in ('test',):
        eng.ev('atomic', st, fr, op='load', loc=O, order=order(0), line=cl.line, v=None, call=cl, res=fresh)
        return one(st, fresh)
    if name == 'store' or name == 'operator=':
        v = val(0)
        eng.ev('atomic', st, fr, op='store', loc=O, order=order(1), line=cl.line, v=v, call=cl, res=None)
        return one(st, v)
    if name in ('exchange', 'test_and_set'):
        v = val(0) if name == 'exchange' else TRUE
        eng.ev('atomic', st, fr, op='rmw', loc=O, order=order(1), line=cl.line, v=v, call=cl, res=fresh)
        return one(st, fresh)
    if name.startswith('compare_exchange'):
        exp, des = A[0], val(1)
        ev = rv(eng, st, fr, exp)
        so = order(2); 
        eng.ev('atomic', st, fr, op='cas', loc=O, order=so, line=cl.line, v=des, call=cl, res=fresh, exp=ev,
               forder=order(3, None))
        s2 = st.copy()
        eng.ev('casok', st, fr, loc=O, exp=ev, v=des, line=cl.line)
        if exp[0] == 'lv': s2.mem[exp[1]] = fresh
        eng.ev('casfail', s2, fr, loc=O, exp=ev, v=des, line=cl.line, res=fresh)
        return [(st, TRUE, 'ret'), (s2, FALSE, 'ret')]
    if name in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'operator++', 'operator--', 'operator+=', 'operator-='):
        v = val(0) if A and name not in ('operator++', 'operator--') else c(1)
        eng.ev('atomic', st, fr, op='rmw', loc=O, order=order(1) if name.startswith('fetch') else 'seq_cst', line=cl.line,
               v=v, call=cl, res=fresh, rmw=name)
        return one(st, fresh)
    if name in ('wait',):
        eng.ev('atomicwait', st, fr, loc=O, line=cl.line)
        return one(st, ('sym', 'void'))
    if name in ('notify_one', 'notify_all'):
        eng.ev('notify', st, fr, cv=O, all=name == 'notify_all', line=cl.line)
        return one(st, ('sym', 'void'))
    return None


def smart(eng, st, fr, cl, O, cls, name, isctor):
    A = cl.args
    node = cl.node
    if isctor:
        if not A: st.mem[P(O)] = FALSE
        else:
            a = A[0]
            if a[0] == 'lv':
                src = a[1]
                x = st.mem.get(src)
                if x is not None and x[0] not in ('ref',) and P(src) not in st.mem:
                    st.mem[P(O)] = x
                else:
                    st.mem[P(O)] = st.read(P(src))
                    if cl.pt and cl.pt[0].endswith('&&'): st.mem[P(src)] = FALSE
                    eng.ev('spcopy', st, fr, src=src, dst=O, line=cl.line)
            else:
                st.mem[P(O)] = a
        return one(st, ('lv', O))
    if name in ('operator->', 'get', '_M_get', '_M_ptr'):
        return one(st, st.read(P(O)))
    if name == 'operator*':
        return one(st, ('lv', deref_(st.read(P(O)))))
    if name == 'operator[]':
        return one(st, ('lv', ('i', deref_(st.read(P(O))), rv(eng, st, fr, A[0]))))
    if name == 'operator bool':
        return one(st, truthy(st.read(P(O))))
    if name == 'release':
        v = st.read(P(O)); st.mem[P(O)] = FALSE
        eng.ev('sprelease', st, fr, loc=O, v=v, line=cl.line)
        return one(st, v)
    if name == 'reset':
        nv = rv(eng, st, fr, A[0]) if A else FALSE
        eng.ev('spreset', st, fr, loc=O, old=st.read(P(O)), new=nv, line=cl.line)
        st.mem[P(O)] = nv
        return one(st, ('sym', 'void'))
    if name == 'operator=':
        a = A[0]
        if a[0] == 'lv':
            nv = st.read(P(a[1]))
            if P(a[1]) not in st.mem and st.mem.get(a[1]) is not None and st.mem[a[1]][0] == 'c': nv = st.mem[a[1]]
        else: nv = a
        eng.ev('spreset', st, fr, loc=O, old=st.read(P(O)), new=nv, line=cl.line)
        st.mem[P(O)] = nv
        if a[0] == 'lv' and cl.pt and cl.pt[0].endswith('&&'): st.mem[P(a[1])] = FALSE
        return one(st, ('lv', O))
    if name == 'lock':
        t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
        v = ('lk8', O) + eng.site(fr, cl.nid)
        st.mem[P(t)] = v
        return one(st, ('lv', t))
    if name == 'expired':
        v = ('call', cl.q) + eng.site(fr, cl.nid); SYMW.setdefault(v, 8)
        return one(st, v)
    if name == 'swap' and A and A[0][0] == 'lv':
        swap(eng, st, fr, cl, O, A[0][1]); return one(st, ('sym', 'void'))
    return None


def deref_(p):
    from .engine import deref
    return deref(p)


def function(eng, st, fr, cl, O, name, isctor):
    A = cl.args
    if isctor or name == 'operator=':
        if A:
            a = A[0]
            x = st.read(a[1]) if a[0] == 'lv' else a
            if x[0] == 'clos':
                st.mem[O] = x
            elif a[0] == 'lv': st.copy_obj(a[1], O)
            else: st.clear_prefix(O); st.mem[O] = x
        else: st.mem[O] = FALSE
        if name == 'operator=': eng.ev('write', st, fr, loc=O, v=st.mem.get(O), line=cl.line, init=False)
        return one(st, ('lv', O))
    if name == 'operator bool':
        return one(st, truthy(st.read(O)))
    if name == 'operator()':
        x = st.read(O)
        if x[0] == 'ref': x = st.read(x[1])
        if x[0] == 'clos':
            fn = eng.p.closure(x[1])
            if fn is not None and eng.can_inline(fr, fn):
                out = []
                for s, kind, e in eng.inline(st, fr, fn, x[3], A, cl.nid, cl.line, dict(x[2]), cl, False):
                    if kind == 'go': out.append((s, s.env.get(cl.nid, ('sym', 'void')), 'ret'))
                    else: out.append((s, e, kind))
                return out
        eng.ev('usercall', st, fr, call=cl)
        return None
    return None


POS = '#pos'


def itc(st, loc):
    """(location, container) of an iterator object with a known position."""
    for _ in range(4):
        v = st.mem.get(loc)
        if v is None: return None
        if v[0] == 'itc': return loc, v[1]
        if v[0] == 'ref': loc = v[1]
        else: return None
    return None


def indexed(eng, st, fr, cl, cls, name, A, isctor):
    """Iterators as (container, position), the position a number."""
    O = cl.obj

    def mk(cont, pos):
        t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
        st.mem[t] = ('itc', cont); st.mem[('f', t, POS)] = pos
        return one(st, ('lv', t))

    def pos(loc): return st.read(('f', loc, POS))

    def num(a):
        v = rv(eng, st, fr, a)
        return v[2] if v[0] == 'cast' and v[1] == -64 else v          # a difference_type made of a size

    if O is not None and cls in CONT and name in ('begin', 'cbegin', 'end', 'cend') and not A:
        e = 'end' if 'end' in name else 'begin'
        eng.ev('cont', st, fr, op=e, loc=O, args=A, call=cl)
        return mk(O, FALSE if e == 'begin' else size_of(eng, st, O))
    if O is None and cls == 'std' and name in ('begin', 'end', 'cbegin', 'cend') and len(A) == 1 and A[0][0] == 'lv':
        return mk(A[0][1], FALSE if 'begin' in name else size_of(eng, st, A[0][1]))
    if O is not None and cls in CONT and cls != 'std::basic_string' and name == 'insert' and len(A) == 3:
        i, j = (itc(st, x[1]) if x[0] == 'lv' else None for x in A[1:])
        eng.ev('cont', st, fr, op='insert', loc=O, args=A, call=cl)
        s0 = size_of(eng, st, O)
        if i and j and i[1] == j[1]: set_size(st, O, add(s0, sub(pos(j[0]), pos(i[0]))))
        else:
            x = ('opq', 'sz') + eng.site(fr, cl.nid); SYMW.setdefault(x, 64)
            set_size(st, O, x); st.facts = st.facts.assume(ge0(sub(x, s0))) or st.facts
        return mk(O, s0)
    if O is not None and cls in CONT and name == 'erase' and len(A) == 2:
        i, j = (itc(st, x[1]) if x[0] == 'lv' else None for x in A)
        if i and j and i[1] == j[1]:
            eng.ev('cont', st, fr, op='erase', loc=O, args=A, call=cl, how='range')
            set_size(st, O, sub(size_of(eng, st, O), sub(pos(j[0]), pos(i[0]))))
            return mk(O, pos(i[0]))
    if O is not None and isctor and cls == 'std::span' and len(A) == 2:
        b = rv(eng, st, fr, A[0])
        if b[0] == 'addr':          # a view of one object (or of the array it begins)
            eng.ev('cont', st, fr, op='ctor', loc=O, args=A, call=cl)
            st.clear_prefix(O); st.mem[O] = ('view', b[1]); set_size(st, O, num(A[1]))
            return one(st, ('lv', O))
    X = [itc(st, a[1]) if a[0] == 'lv' else None for a in A]
    if O is None:
        if name == 'make_move_iterator' and X and X[0]: return mk(X[0][1], pos(X[0][0]))
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(A) == 2 and X[0] and X[1] and X[0][1] == X[1][1]:
            return one(st, cmp(name[8:], pos(X[0][0]), pos(X[1][0])))
        if name in ('operator+', 'operator-', 'next', 'prev') and A and X[0]:
            if len(A) == 2 and X[1]: return one(st, sub(pos(X[0][0]), pos(X[1][0])))
            n = num(A[1]) if len(A) == 2 else c(1)
            return mk(X[0][1], (add if name in ('operator+', 'next') else sub)(pos(X[0][0]), n))
        if name == 'distance' and len(A) == 2 and X[0] and X[1]: return one(st, sub(pos(X[1][0]), pos(X[0][0])))
        if name == 'advance' and X[0]:
            st.mem[('f', X[0][0], POS)] = add(pos(X[0][0]), num(A[1])); return one(st, ('sym', 'void'))
        return None
    if not ITER.match(cls): return None
    if isctor:
        if A and X[0]: st.copy_obj(X[0][0], O); return one(st, ('lv', O))
        return None
    me = itc(st, O)
    if me is None: return None
    L, C = me
    if eng.nodes and name in ('operator*', 'operator->'):
        k = P(('i', C, pos(L))); st.mem[k] = st.read(k)                # the same pointer however it is copied from here
    if name == 'operator*': return one(st, ('lv', ('i', C, pos(L))))
    if name == 'operator->': return one(st, ('addr', ('i', C, pos(L))))
    if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
        p0 = pos(L)
        n = num(A[0]) if name in ('operator+=', 'operator-=') else c(1)
        st.mem[('f', L, POS)] = (add if '+' in name else sub)(p0, n)
        return mk(C, p0) if name in ('operator++', 'operator--') and A else one(st, ('lv', O))
    if name in ('operator+', 'operator-') and A:
        if X[0]: return one(st, sub(pos(L), pos(X[0][0])))
        return mk(C, (add if name == 'operator+' else sub)(pos(L), num(A[0])))
    if name in ('operator==', 'operator!=') and A and X[0]: return one(st, cmp(name[8:], pos(L), pos(X[0][0])))
    if name in ('operator=',) and A and X[0]: st.copy_obj(X[0][0], O); return one(st, ('lv', O))
    if name in ('base', '_M_base'): return one(st, ('lv', O))
    return None


def iterator(eng, st, fr, cl, O, name, A, isctor):
    if isctor:
        if A:
            a = A[0]
            x = objval(eng, st, fr, a)
            st.clear_prefix(O); st.mem[O] = x
        return one(st, ('lv', O))
    v = st.read(O)
    if v[0] == 'ref': v = st.read(v[1])
    if name == 'operator*': return one(st, ('lv', elem_loc(v)))
    if name == 'operator->': return one(st, ('addr', elem_loc(v)))
    if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
        nv = ('it', v[1] if v[0] == 'it' else ('d', v), ('adv',) + eng.site(fr, cl.nid))
        st.mem[O] = nv
        if name in ('operator++', 'operator--') and A: return one(st, v)
        return one(st, ('lv', O))
    if name in ('operator+', 'operator-'):
        return one(st, ('it', v[1] if v[0] == 'it' else ('d', v), ('off', name, rv(eng, st, fr, A[0]) if A else None)))
    if name in ('base', '_M_base'): return one(st, ('lv', O))
    if name in ('operator==', 'operator!=') and A:
        return one(st, cmp(name[-2:], v, objval(eng, st, fr, A[0])))
    return None


def elem_of(st, a):
    """Location of the element an iterator operand points to."""
    if a[0] == 'lv':
        i = itc(st, a[1])
        if i: return ('i', i[1], st.read(('f', i[0], POS)))
        loc = a[1]
        for _ in range(4):
            v = st.mem.get(loc)
            if v is not None and v[0] == 'ref': loc = v[1]
            else: break
        a = v if v is not None else st.read(loc)
    return ('i', a[1], a[2]) if a[0] == 'it' else None


def moved_elems(st, O, site):
    """An ordered container changed: which element is at a position is unknown again."""
    for k in [k for k in st.mem if under_pos(k, O)]: del st.mem[k]
    for p in (FALSE, ('sym', 'back')): st.mem[('#gen', ('i', O, p))] = ('mv',) + site


def under_pos(k, O):
    if k[0] in ('#al', '#gen'): k = k[1]
    while k[0] in ('f', 'i'):
        if k[0] == 'i' and k[1] == O: return k[2][0] in ('c', 'sym', 'lin', 'phi', 'ld')
        k = k[1]
    return False


def elem_loc(v):
    if v[0] == 'it': return ('i', v[1], v[2] if isinstance(v[2], tuple) else ('sym', v[2]))
    return ('d', v)


def view(st, O):
    """Where the characters of a view are."""
    return st.mem.get(('f', O, '#data')) or ('addr', ('i', O, FALSE))


def cont(eng, st, fr, cl, O, name, A):
    """Containers and strings: element identity and a symbolic size."""
    node = cl.node
    site = eng.site(fr, cl.nid)

    def ev(op, **kw):
        eng.ev('cont', st, fr, op=op, loc=O, args=A, call=cl, **kw)

    def a(i): return rv(eng, st, fr, A[i])
    def isint(i): return 'w' in fr.fn.nodes[cl.anodes[i]] and A[i][0] != 's'
    arr = None
    if cl.cls == 'std::array' and 'obj' in node:
        m = re.search(r'array<.*, (\d+)[uUlL]*>', fr.fn.nodes[node['obj']].get('t', ''))
        if m: arr = c(int(m.group(1)))
    cls = strip_cls(cl.cls)
    sz = lambda: arr or size_of(eng, st, O)
    if name in ('size', 'length', 'ssize'):
        ev('size'); return one(st, sz())
    if name == 'empty':
        ev('empty'); return one(st, eq0(sz()))
    if name in ('data', 'c_str'):
        ev('data')
        return one(st, view(st, O) if cls == 'std::basic_string_view' else ('addr', ('i', O, FALSE)))
    if cls == 'std::basic_string_view' and name == 'remove_prefix' and len(A) == 1:
        n, d = a(0), view(st, O)
        ev('clear')
        set_size(st, O, sub(sz(), n)); st.mem[('f', O, '#data')] = add(d, n)
        return one(st, ('sym', 'void'))
    if cls == 'std::basic_string_view' and name == 'substr' and len(A) >= 1:
        n, d, z = a(0), view(st, O), sz()
        whole = len(A) == 1 or fr.fn.nodes[cl.anodes[1]]['k'] == 'CXXDefaultArgExpr'
        m = None if whole else a(1)
        t = ('t', fr.ctx, cl.nid)
        out = []
        for rest in (True,) if whole else (True, False):
            f = st.facts if whole else st.facts.assume(ge0(sub(m, sub(z, n))), rest)
            if f is None: continue
            s = st.copy(); s.facts = f
            s.clear_prefix(t)
            set_size(s, t, sub(z, n) if rest else m); s.mem[('f', t, '#data')] = add(d, n)
            out.append((s, ('lv', t), 'ret'))
        return out
    if name in ('operator[]', 'at'):
        i = objval(eng, st, fr, A[0])
        ev('index', idx=i)
        loc = ('i', O, i)
        return one(st, ('lv', loc))
    if name in ('front', 'back', 'top'):
        ev(name)
        return one(st, ('lv', ('i', O, ('sym', name) if name != 'front' else FALSE)))
    if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        ev('begin'); return one(st, ('it', O, ('begin',)))
    if name in ('end', 'cend', 'rend', 'crend'):
        ev('end'); return one(st, ('it', O, ('end',)))
    if name in ('find', 'lower_bound', 'upper_bound') and strip_cls(cl.cls) not in ('std::basic_string', 'std::basic_string_view'):
        kv = objval(eng, st, fr, A[0])
        ev('find', key=kv)
        return one(st, ('it', O, ('find', kv) + site[:0]))
    if name in ('contains', 'count') and len(A) == 1:
        kv = objval(eng, st, fr, A[0])
        ev('find', key=kv)
        r = ('has', O, kv) + site; SYMW.setdefault(r, 8)
        return one(st, r)
    if name == 'resize':
        n = a(0); ev('resize', n=n)
        set_size(st, O, n); return one(st, ('sym', 'void'))
    if name in ('reserve', 'shrink_to_fit'):
        ev(name, n=a(0) if A else None); return one(st, ('sym', 'void'))
    if name == 'clear':
        ev('clear'); st.clear_prefix(O); st.mem[('#gen', O)] = ('clr',) + site
        set_size(st, O, FALSE); return one(st, ('sym', 'void'))
    if name in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front', 'try_emplace', 'insert_or_assign') or \
            (name == 'insert' and strip_cls(cl.cls) not in ('std::basic_string', 'std::vector')):
        ev('push', how=name)
        s0 = sz()
        assoc = strip_cls(cl.cls) in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
        if assoc:
            ns = ('opq', 'sz') + site; SYMW.setdefault(ns, 64)
            set_size(st, O, ns)
            st.facts = st.facts.assume(ge0(sub(ns, c(1)))) or st.facts
        elif name != 'insert' or True:
            set_size(st, O, add(s0, c(1)))
        if eng.nodes and 'set' in cl.cls:
            e = ('i', O, ('ins',) + site)
            src = A[-1][1] if A and A[-1][0] == 'lv' else None
            if src is not None: st.copy_obj(src, ('t', fr.ctx, (cl.nid, 'el')))
            moved_elems(st, O, site)
            st.clear_prefix(e)
            if src is not None: st.copy_obj(('t', fr.ctx, (cl.nid, 'el')), e)
        if name in ('emplace_back', 'emplace_front') and node.get('lv'):
            return one(st, ('lv', ('i', O, ('sym', 'new') + site)))
        if name in ('push_back', 'push', 'push_front'): return one(st, ('sym', 'void'))
        t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
        st.mem[('f', t, 'first')] = ('it', O, ('ins',) + site)
        SYMW.setdefault(('ld', ('f', t, 'second')), 8)
        st.mem[('#gen', ('f', t, 'second'))] = ('ins',) + site
        if 'pair' in node.get('t', ''): return one(st, ('lv', t))
        return one(st, ('it', O, ('ins',) + site))
    if name in ('pop_back', 'pop', 'pop_front'):
        ev('pop', how=name)
        set_size(st, O, sub(sz(), c(1))); return one(st, ('sym', 'void'))
    if name in ('erase', 'extract', 'remove', 'remove_if'):
        ev('erase', how=name)
        st_sz = ('opq', 'sz') + site; SYMW.setdefault(st_sz, 64)
        set_size(st, O, st_sz)
        e = None
        if eng.nodes and 'set' in cl.cls:
            e = elem_of(st, A[0]) if A else None
            if e is not None: st.mem[P(e)] = st.read(P(e))
            t = ('t', fr.ctx, cl.nid); st.clear_prefix(t)
            if e is not None: st.copy_obj(e, t)
            moved_elems(st, O, site)
            if name == 'extract' and e is not None: return one(st, ('lv', t))
        if name == 'extract':
            t = ('t', fr.ctx, cl.nid); st.clear_prefix(t); st.mem[('#gen', t)] = ('ext',) + site
            return one(st, ('lv', t))
        if 'w' in node:
            r = ('call', cl.q) + site; SYMW.setdefault(r, node['w']); return one(st, r)
        if node.get('lv'): return one(st, ('lv', O))
        return one(st, ('it', O, ('ers',) + site))
    if name in ('append', 'operator+=', 'assign', 'insert', 'replace'):
        ev(name)
        s0 = sz()
        n = None
        if name in ('append', 'assign') and len(A) >= 2 and isint(1): n = a(1)
        elif name in ('append', 'operator+=') and len(A) == 1 and A[0][0] == 'lv' and 'w' not in fr.fn.nodes[cl.anodes[0]]: n = size_of(eng, st, A[0][1])
        elif name == 'insert' and len(A) == 3 and isint(0) and isint(2): n = a(2)
        if n is not None:
            set_size(st, O, add(s0, n) if name != 'assign' else n)
        else:
            x = ('opq', 'sz') + site; SYMW.setdefault(x, 64)
            set_size(st, O, x)
            if name != 'assign' and name != 'replace': st.facts = st.facts.assume(ge0(sub(x, s0))) or st.facts
        return one(st, ('lv', O))
    if name == 'swap' and A and A[0][0] == 'lv':
        ev('swap', other=A[0][1])
        swap(eng, st, fr, cl, O, A[0][1]); return one(st, ('sym', 'void'))
    if name == 'operator=':
        ev('assign')
        if A[0][0] == 'lv':
            eng.ev('write', st, fr, loc=O, v=None, line=cl.line, init=False)
            src = A[0][1]
            st.copy_obj(src, O)
            if cl.pt and cl.pt[0].endswith('&&'):
                eng.ev('move', st, fr, src=src, dst=O, line=cl.line)
                set_size(st, src, FALSE)
        else:
            st.clear_prefix(O); st.mem[('#gen', O)] = ('asg',) + site
        return one(st, ('lv', O))
    if name in ('splice', 'merge'):
        ev(name); return one(st, ('sym', 'void'))
    if node.get('const'):
        ev('const:' + name)
    else:
        ev('mut:' + name)
    return None


def strip_cls(q): return q
