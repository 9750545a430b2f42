"""Shared state of connections and their manager is touched under its lock."""
from ..lockset import *

RULE = ('Lockset analysis (see C12) over the network layer: the connection table, names, counters and work queue of the manager, the work '
        'flags, output stream, pending calls and call timeout of a connection, the process-wide table of connection callbacks and the '
        'descriptor sets of the select backend are accessed under one and the same mutex everywhere.')
LEVEL = 'proof'
ASSUMES = ['objects are not accessed by other threads during their construction and destruction',
           'the coroutine based io_uring path is outside this rule']
MIN = {'guarded access': 30}
C = 'plain::net::connection::'
TABLE = [
    {C + 'Basic::Impl': [('work_flags', 'unsigned char'), ('callings', 'map'), ('timeout', 'optional'), ('ostream', 'unique_ptr<.*stream')]},
    {C + 'detail::ConnectionInfo>' + C + 'Manager::Impl': [('list', 'vector'), ('ids', 'shared_ptr'), ('free_ids', 'set'), ('size', 'long'), ('max_id', '^int')],
     C + 'Manager::Impl': [('conn_names', 'map'), ('send_size', '^unsigned long'), ('recv_size', '^unsigned long'),
                           ('wait_work_conn_id_deque', 'deque'), ('wait_work_conn_ids', 'set')]},
    {C + 'Select::Impl::fd_info_t>' + C + 'Select::Impl': [('full', 'fd_set')],
     C + 'Select::Impl': [('valid_fds', 'set'), ('max_fd', '^int'), ('fd_size', '^int')]},
]


def run(cx):
    p = cx.p
    gl = [g for g, v in p.gvars.items() if re.search(r'map<.*function<void \(plain::net::connection::Basic', v.get('t', ''))]
    for t in TABLE:
        F, M = guard_table(p, t)
        g = gl if C + 'Basic::Impl' in t else ()
        col = collect(cx, F, M, globals_=g)
        judge(cx, col, exempt)


def exempt(key, where, fn):
    # the awaitable (io_uring) path pushes without the lock by construction
    if fn.endswith('_await'): return 'coroutine path'
    return None
