"""Shared state of executors, timers, engine, logger and task queues is touched under its lock."""
from ..lockset import *

RULE = ('Lockset analysis over all entry points (public members, escaping closures, members entered through friends or virtual bases), '
        'private helpers in the context of their callers: every access to the listed shared fields outside construction/destruction is made '
        'while one and the same mutex of the owning object is held.')
LEVEL = 'proof'
ASSUMES = ['objects are not accessed by other threads during their construction and destruction',
           'worker-private queues are confined to the worker thread (not part of the table)']
MIN = {'guarded access': 45}
E = 'plain::concurrency::executor::'
TABLE = {
    E + 'Manual': [('tasks_', 'deque|queue|vector|list'), ('abort_', '^bool')],
    E + 'Thread': [('workers_', 'list|vector'), ('last_retired_', 'list|vector'), ('abort_', '^bool')],
    E + 'WorkerThread': [('public_queue_', 'deque|queue'), ('abort_', '^bool')],
    E + 'detail::ThreadPoolWorker': [('public_queue_', 'deque|queue'), ('abort_', '^bool'), ('idle_', '^bool')],
    'plain::detail::executor_collection': [('executors', 'shared_ptr')],
    'plain::Kernel::Impl': [('nets', 'weak_ptr'), ('console_handlers', 'map<.*function'), ('console_descs', 'map<.*string'), ('unnamed_net_count', 'int')],
    'plain::TimerQueue::Impl': [('request_queue', 'vector'), ('abort', '^bool'), ('idle', '^bool')],
    'plain::AsyncLogger::Impl': [('current_buffer_', 'unique_ptr'), ('next_buffer_', 'unique_ptr'), ('buffers_', 'vector')],
    'plain::ThreadPool': [('tasks_', 'queue'), ('stop_', 'bool')],
    'plain::TaskQueue': [('tasks_', 'queue'), ('stop_', 'bool')],
}


def run(cx):
    for cls, fl in TABLE.items():
        F, M = guard_table(cx.p, {cls: fl})
        judge(cx, collect(cx, F, M))
