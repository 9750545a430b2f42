"""The executors, timer queue and task queues: their shared queues, abort
flags and locks, and how one thread sees what another does between two of its
critical sections (every guarded field is unknown again when its lock is taken)."""
import re
from .lib import *
from .lockset import MUTEX, frames

E = 'plain::concurrency::executor::'
TASK = 'plain::concurrency::Task'


class Ex:
    """One class with a queue of work: resolved field names."""

    def __init__(self, prog, cls, queue, abort, private=None, entries=('enqueue',), atomics=()):
        self.cls, self.sh = cls, cls.rsplit('::', 1)[-1]
        rec = prog.record(cls)
        if rec is None: raise AnalysisError('anchor vanished: class ' + cls)
        self.fs = {f['name']: f['t'] for f in rec['fields']}
        self.mut = {f for f, t in self.fs.items() if MUTEX.search(t)}
        taken = [x for x in (queue[0], private and private[0]) if x]
        self.queue = self.find(queue, taken)
        self.private = self.find(private, taken) if private else None
        self.abort = self.find(abort, ()) if abort else None
        self.atomics = {f for f, t in self.fs.items() if t.startswith('std::atomic')}
        self.entries = entries

    def find(self, spec, taken):
        nm, rx = spec
        if nm in self.fs: return nm
        cand = [f for f, t in self.fs.items() if f not in taken and re.search(rx, t)]
        if len(cand) == 1: return cand[0]
        raise AnalysisError('anchor vanished: %s::%s' % (self.cls, nm))


DQ, BO = r'^std::(deque|list|vector|queue)<', '^bool$'


def executors(p):
    return [
        Ex(p, E + 'Manual', ('tasks_', DQ), ('abort_', BO)),
        Ex(p, E + 'WorkerThread', ('public_queue_', DQ), ('abort_', BO), ('private_queue_', DQ)),
        Ex(p, E + 'Thread', ('workers_', r'^std::(list|vector|deque)<'), ('abort_', BO)),
        Ex(p, E + 'detail::ThreadPoolWorker', ('public_queue_', DQ), ('abort_', BO), ('private_queue_', DQ)),
    ]


class Shared:
    """Forget the guarded fields of an object when one of its locks is taken.
    classes: {class: set of guarded field names}, found by the type of the lock's owner."""

    def __init__(self, fields):
        self.fields = fields                       # {mutex field name: {fields}} per class, flattened by class

    def on_lock(self, st, fr, mutex, line):
        if mutex[0] != 'f': return
        t = self.fields.get(mutex[2])
        if not t: return
        for f in t: self.eng.refresh(st, fr, ('f', mutex[1], f))


def shared_of(exs, extra=()):
    """Guarded fields by name of the lock that guards them."""
    r = {}
    for x in exs:
        for m in x.mut:
            s = r.setdefault(m, set())
            for f in (x.queue, x.abort) + tuple(extra):
                if f and f in x.fs and not x.fs[f].startswith('std::atomic'): s.add(f)
    return {k: tuple(sorted(v)) for k, v in r.items()}


def locked(st, base, mut): return any(m[0] == 'f' and m[1] == base and m[2] in mut for m in st.locks)


def is_false(st, v): return st.facts.truth(eq0(v) if not is_bool_atom(v) else b_not(v)) is True


def is_true(st, v): return st.facts.truth(eq0(v) if not is_bool_atom(v) else b_not(v)) is False


def field(st, base, f):
    v = st.read(('f', base, f))
    SYMW.setdefault(v, 8)
    return v


def stack(fr): return [x.fn.where() + ' ' + short(x.fn) for x in frames(fr)]


PUSH = {'push', 'insert', 'append', 'operator+='}
