C = 'framework/core/'
PROPS, NA = [], []


def P(id, title, statement, over, for_all, why, files, mech, tech, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), for_all=for_all, why=why,
                      files=[C + f for f in files], mech=[(a, C + b) for a, b in mech], tech=tech, note=note, observe=list(observe)))


def N(id, title, statement, over, for_all, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), for_all=for_all, why=why,
                   files=[C + f for f in files], mech=[(a, C + b) for a, b in mech], reason=reason))


P('C01', 'Packet reads and writes never leave the packet',
  'Whatever sequence of reads, writes and repositionings is applied to a packet, no operation touches memory outside the bytes the packet '
  'currently holds (or outside the caller\'s stated buffer), and the read position never lies beyond the stored bytes. A read that asks for more than is left '
  'reports failure instead of delivering bytes, and a successful raw read advances the position by exactly what it delivered.',
  'inputs histories', 'every packet content, every length argument including 0 and values near the type maximum, every order of calls',
  'tests read back what they wrote, with matching sizes; lengths larger than the content, wrap-around sums and empty packets are never tried',
  ['src/net/packet/basic.cc', 'include/plain/net/packet/basic.h'],
  [('bounds test before each copy', 'src/net/packet/basic.cc read/write'), ('cursor <= size', 'src/net/packet/basic.cc Impl.offset')],
  'abstract interpretation (relational numeric domain) over clang CFGs',
  'Inductive proof per public operation: assumes cursor<=size on entry, shows every access in bounds and cursor<=size on exit. Trusts the '
  'std::vector model and that caller pointers address the stated lengths.')
P('C02', 'Packet read and write switches are independent and enforced',
  'Turning a packet\'s readable or writeable switch, or one of its call markers, on or off changes exactly that switch and no other, for every combination of the others. '
  'While a packet is not writeable no operation changes its bytes, and while it is not readable no read delivers bytes or moves the position.',
  'inputs histories', 'all 256 flag words and every order of switch operations, reads and writes',
  'tests toggle one switch at a time from the default state',
  ['src/net/packet/basic.cc', 'include/plain/net/packet/basic.h'],
  [('flag word', 'src/net/packet/basic.cc set_*/is_*'), ('guards in read/write', 'src/net/packet/basic.cc')],
  'exhaustive evaluation of extracted transfer functions over the finite flag word + path-condition check at every effect',
  'Decides all flag values; trusts the extraction of the flag terms from the CFG.')
P('C03', 'Decoding untrusted RPC bytes stays in the buffer and reports shortage',
  'Decoding a remote-call message of arbitrary length and content never reads outside the received bytes and never writes outside the target object. When the bytes end before a '
  'value is complete, or announce more elements than a fixed-size target holds, an error is recorded; a recorded error is never cleared by '
  'decoding something else, and no further elements are decoded after it.',
  'inputs', 'every byte string, every truncation point, every target type the decoder supports',
  'tests decode only what the encoder produced',
  ['include/plain/net/rpc/unpacker.h', 'src/net/rpc/unpacker.cc', 'include/plain/net/rpc/packer.h'],
  [('remaining-bytes test', 'src/net/rpc/unpacker.cc'), ('error code member', 'include/plain/net/rpc/unpacker.h')],
  'abstract interpretation of every decoding overload over a symbolic buffer',
  'Each overload and each template instance in drivers/rpc.cc is covered; user-written pack() members are assumed to use the public operations.')
P('C04', 'RPC encoding and decoding agree for every value',
  'Every integer of every width, boolean and null that is encoded decodes to the same value, consuming exactly the bytes that were written and regardless of what the target variable held before. '
  'The same holds for the length announced for strings, byte arrays, sequences and maps at every size, and map entries decode key first, '
  'value second as they were written.',
  'inputs', 'all values of the integer types (each encoder size class), all container lengths',
  'tests round-trip a few values; size-class boundaries, type-tag collisions and negative values in one-byte form are not sampled',
  ['include/plain/net/rpc/packer.h', 'include/plain/net/rpc/unpacker.h', 'src/net/rpc/packer.cc', 'src/net/rpc/unpacker.cc'],
  [('type tags and size classes', 'include/plain/net/rpc/config.h'), ('encoders', 'include/plain/net/rpc/packer.h'), ('decoders', 'include/plain/net/rpc/unpacker.h')],
  'abstract interpretation: decoder executed over the exact symbolic bytes each encoder path writes',
  'Sound for the integer/bool/null/length-header clauses over all values; floating point payloads are not decided (see C30).')
P('C05', 'Message framing honours limits and consumes all or nothing',
  'The stream decoders hand out a packet only when all its bytes have arrived and its id and length are inside the configured limits, and then consume exactly '
  'that packet\'s bytes; otherwise they consume nothing or report an error, whatever the bytes are. What the encoders write for any packet is '
  'what the decoders recognise, including the marker that tells requests, responses and notifications apart.',
  'inputs histories', 'every byte content of the stream, every fragmentation, every limit setting',
  'tests deliver whole well-formed packets; split headers, hostile lengths and ids on the limit are not tried',
  ['src/net/stream/codec.cc', 'include/plain/net/stream/codec.h'],
  [('header and limit tests', 'src/net/stream/codec.cc decode'), ('line codec', 'src/net/stream/codec.cc line_decode')],
  'abstract interpretation with stream contracts (byte-accounting ghost state)',
  'Decided for both codecs against the stream contracts that C06/C07 check separately.')
P('C08', 'A connection slot that is used again starts clean',
  'A connection that gets a slot inherits nothing from the connection that had it before: the descriptor is closed, both streams and the pending calls are empty, and flags, counters, timeout, codec, dispatcher and the callbacks of the connection are those of a new one, whatever happened before (also if closing failed). When a connection is lost, its streams, work flags and working mark are reset before the disconnect is told, so that a callback which connects again starts clean and keeps what it sends. A callback set for an event is the one that runs on that event.',
  'histories faults', 'every history of uses, failures and removals of a slot before it is used again',
  'tests reuse slots seldom and with the same settings: leftovers of a peer (partial messages, flags, timeouts, callbacks) need a second connection after an unclean end of the first',
  ['src/net/connection/basic.cc', 'src/net/stream/basic.cc'],
  [('reset', 'src/net/connection/basic.cc Basic::init'), ('disconnect', 'src/net/connection/basic.cc Basic::on_disconnect'), ('callbacks', 'src/net/connection/basic.cc set_connect_callback, check_callable')],
  'abstract execution of the reset with one typestate per field of the connection',
  'When the reset runs, and that the name is forgotten, is C10. The socket type of the slot is set by the next connect or accept and not judged.')

P('C09', 'Descriptors and files have one owner and are closed exactly once',
  'Every descriptor or file that the library opens (sockets, accepted peers, duplicates, the wake pair, the epoll descriptor, table and log files) is on every path returned, closed once, or handed to an object that owns it; a refusal leaves it with the giver, who closes it. An owner never forgets a descriptor by overwriting it, never keeps one it has closed, and closes what it still owns when it is destroyed. No failure path, restart or pending socket error leaves a descriptor open that nobody can close.',
  'histories faults', 'every path through accepting, connecting, cloning, starting, closing and destroying, with every call failing or not',
  'a leaked or doubly closed descriptor shows only after thousands of connections or when the number was given to somebody else in between; tests run on success paths',
  ['src/net/socket/basic.cc', 'src/net/socket/listener.cc', 'src/net/socket/api.cc', 'src/net/connection/manager.cc', 'src/net/connection/epoll.cc', 'src/file/api.cc', 'src/file/tab.cc'],
  [('socket owner', 'src/net/socket/basic.cc Basic::close, Basic::set_id, Basic::release'), ('accepted peer', 'src/net/socket/listener.cc Listener::accept'), ('wake pair', 'src/net/connection/manager.cc Manager::start, Manager::~Manager'), ('epoll', 'src/net/connection/epoll.cc poll_create, poll_destory')],
  'ownership typestate over the control flow graph, owning fields learned from the code',
  'Exceptions between opening and storing are not considered (the code there does not throw). A loop that closes through pointers is not resolved to fields. dlopen handles and the standard streams of the logger are not judged.')

P('C10', 'The connection table: unique ids within the limit, removed once, told once',
  'Every connection in use has an id of its own between 1 and max_count and its own slot; an id is given again only after its connection was removed, and a connection is refused only if the table is full. Removing a connection that is in use closes it, takes it out of the readiness backend, frees its id and name once and tells the disconnect once (unless asked not to), whatever its callbacks do; removing any other id changes nothing. A connection that was taken is announced once after every step succeeded, or removed silently on every failing path; a broadcast reaches every valid connection once.',
  'histories inputs schedules', 'every sequence of connects, accepts, failures at any step, removals (repeated, nested in callbacks) and broadcasts, every max_count',
  'tests open a few connections that succeed: failing steps, reuse of ids at the limit, removal from callbacks and growth of the table during a callback do not occur',
  ['src/net/connection/manager.cc', 'src/net/connector.cc'],
  [('ids', 'src/net/connection/manager.cc Manager::new_conn, Manager::is_full, Manager::get_conn'), ('removal', 'src/net/connection/manager.cc Manager::remove'), ('announcement', 'src/net/connection/manager.cc Manager::accept, src/net/connector.cc connect_impl'), ('broadcast', 'src/net/connection/manager.cc Manager::broadcast, Manager::foreach')],
  'abstract execution of table operations with invariants of the table, on every path',
  'The lock is C11, what a reused slot contains C08. A user callback that removes its own connection again, and a removal by a handle kept after the id was given again (there is no generation number), are not judged.')

P('C11', 'Network state shared between threads is touched only under its lock',
  'The state of connections, of the connection manager and of the readiness backends that several threads use (pending calls, work flags, output stream, '
  'connection table and counters, work queue, descriptor sets, callbacks) is read and written only while the lock that belongs to it is held. No schedule of worker threads, '
  'user threads and the network thread makes two threads touch one of these fields at the same time, one of them writing.',
  'schedules histories', 'every interleaving of sends, calls, closes, removals, accepts and network work on any number of connections',
  'a data race shows only under one particular preemption; the tests use one connection and one worker',
  ['src/net/connection/basic.cc', 'src/net/connection/manager.cc', 'src/net/connection/select.cc', 'include/plain/net/connection/manager.h'],
  [('connection mutex', 'src/net/connection/basic.cc Impl.mutex'), ('manager mutex', 'src/net/connection/manager.cc'), ('select set lock', 'src/net/connection/select.cc')],
  'context-sensitive lockset analysis from every thread entry point',
  'Every access on every path from every public or escaping entry point; the set of guarded fields is declared in the rule. The zero-copy *_await path of '
  'the connection and the input stream (owned by one worker at a time) are outside it.')
P('C12', 'Executors, timers, kernel and logger share state only under their lock',
  'The queues, flags, tables and thread handles of the executors, the thread pool, the timer queue, the engine kernel, the task queue and the asynchronous logger '
  'are read and written only while the lock that belongs to them is held, whichever thread uses them. This includes the time of shutdown.',
  'schedules histories', 'every interleaving of enqueueing, running, cancelling, registering and shutting down',
  'races need a preemption at one instruction; the tests rarely run producers against shutdown',
  ['src/concurrency/executor/manual.cc', 'src/concurrency/executor/thread.cc', 'src/concurrency/executor/worker_thread.cc', 'src/concurrency/executor/thread_pool.cc', 'src/engine/timer_queue.cc', 'src/engine/kernel.cc'],
  [('executor locks', 'src/concurrency/executor'), ('timer queue lock', 'src/engine/timer_queue.cc'), ('kernel lock', 'src/engine/kernel.cc')],
  'context-sensitive lockset analysis from every thread entry point',
  'Every access on every path from every public or escaping entry point; the set of guarded fields is declared in the rule; constructors and destructors are exempt.')
P('C13', 'No deadlock through lock order, callbacks or joins under a lock',
  'The locks of the framework are always nested in one consistent order, and no thread takes a non-recursive lock it already holds. '
  'While such a lock is held the framework runs no user callback or queued task, destroys no queued work whose destructor could run waiting code, joins no thread and waits for no other thread. '
  'So no schedule of user threads, executors, timers and the network thread can block forever on these locks.',
  'schedules histories', 'every interleaving of public operations, callbacks that call back into the framework, and shutdown',
  'a deadlock needs two threads inside two critical sections at once, or a callback that re-enters; tests do neither',
  ['src/net/connection/basic.cc', 'src/net/connection/manager.cc', 'src/concurrency/executor/thread_pool.cc', 'src/engine/timer_queue.cc', 'src/engine/kernel.cc'],
  [('lock order kernel > manager > connection', 'src/net/connection/manager.cc'), ('unlock before running tasks', 'src/concurrency/executor/manual.cc'), ('executor collection', 'src/engine/kernel.cc')],
  'interprocedural lock-order graph, callback-under-lock and blocking-under-lock effect analysis',
  'Lock classes, not instances; the manager\'s recursive mutex may be held around its disconnect callback by design; message codecs are not counted as callbacks.')
P('C06', 'Streams send each buffered byte once and keep every received byte',
  'Whatever mixture of full, partial, refused and failed transfers the socket produces, the bytes handed to the socket are exactly the buffered bytes in order, each byte leaves '
  'the buffer exactly when the socket took it, and the number reported is the number taken. All received bytes are stored, "would block" is not mistaken for an end, and end of stream, errors and '
  'bytes that could not be stored are reported as failures.',
  'inputs histories faults', 'every sequence of send/receive results (counts, 0, would-block, error) and every buffer fill',
  'tests transfer small amounts over a loopback socket that takes everything at once',
  ['src/net/stream/basic.cc', 'include/plain/net/stream/basic.h'],
  [('peek, send, remove', 'src/net/stream/basic.cc push'), ('receive, store', 'src/net/stream/basic.cc pull')],
  'abstract interpretation with contracts for ring buffer and socket, ghost counters of sent and removed bytes',
  'Loop invariants (sent = removed = offset) are inferred as lockstep relations; the ring contract is C07, the socket contract C23.')
P('C07', 'The ring buffer is a first-in first-out queue that never loses elements',
  'Starting from any fill level and any position of the stored elements in the buffer, writing appends exactly the reported elements behind the stored ones and reading or removing takes exactly '
  'the reported oldest ones, in order, never touching memory outside the buffer; a growing buffer keeps all stored elements in order and grows enough for the write that caused it. The reported '
  'count is the smaller of what was asked and what is possible, or nothing when all-or-nothing was demanded, and a read-only read changes nothing.',
  'inputs histories', 'every capacity, head and tail position (wrapped or not), every count and every order of operations',
  'tests use a fresh ring whose content never wraps or grows while data is stored',
  ['include/plain/basic/ring.h'],
  [('head/tail/mask', 'include/plain/basic/ring.h Ring'), ('growth', 'include/plain/basic/ring.h DynamicRing::resize')],
  'inductive abstract interpretation of every operation from an arbitrary ring state, symbolic element positions',
  'Proves each operation from an arbitrary state satisfying the representation invariant; index wrap-around of 64 bit counters excluded; one user thread at a time (C11).')
P('C14', 'Every remote call is settled exactly once',
  'A call made on a connection is completed exactly once: by the response that carries its index, with a value exactly when that response carries no '
  'error, or by a failure when the request cannot be sent, the connection is closed or removed, or its manager stops; no interleaving of these leaves '
  'it pending for ever or completes it twice. The result stays readable for as long as the caller keeps it, and consists of exactly the bytes of the '
  'response after its header fields.',
  'schedules histories faults', 'every order of sending, response arrival, duplicate or unknown responses, close, removal and stop, on any threads',
  'tests make a few calls that succeed on an idle connection; duplicate responses, close during a call and late decoding of the result are never exercised',
  ['src/net/connection/basic.cc', 'include/plain/net/connection/basic.h', 'src/net/connection/manager.cc', 'include/plain/net/rpc/unpacker.h'],
  [('table of pending calls', 'src/net/connection/basic.cc Impl::callings'), ('registration', 'src/net/connection/basic.cc send_call'),
   ('settlement', 'src/net/connection/basic.cc handle_rpc_response'), ('close/removal/stop', 'src/net/connection/manager.cc')],
  'path-sensitive typestate analysis of the pending-call table with lock-section tracking, in-context call graph walk',
  'Covers every path of packet handling, sending, closing, removing and stopping; a call whose peer stays connected and never answers is bounded only by the caller\'s timeout.')
P('C15', 'Remote requests are answered exactly once, with the outcome of their function',
  'Every request that arrives while functions are bound is dispatched once to the function bound to the name it carries and answered by exactly one '
  'response with the request\'s index, an error code exactly when dispatch failed, and otherwise the packed result, whether or not the function has one; '
  'notifications and other packets are never answered. A bound function runs only with arguments that decoded completely, and an unknown or missing '
  'name or undecodable arguments are reported as errors.',
  'inputs histories', 'every packet content, every kind of bound function (with and without arguments or result), every order of packets',
  'tests call a handful of functions with matching arguments; unknown names, truncated arguments and calls of functions without result are not tried',
  ['src/net/connection/basic.cc', 'src/net/rpc/dispatcher.cc', 'include/plain/net/rpc/dispatcher.h', 'include/plain/net/connection/basic.h'],
  [('request handling', 'src/net/connection/basic.cc handle_rpc_request'), ('lookup', 'src/net/rpc/dispatcher.cc dispatch'), ('adaptors', 'include/plain/net/rpc/dispatcher.h bind')],
  'path-sensitive protocol analysis of packet handling, dispatch and the bound adaptors; wire-layout agreement of both sides',
  'Assumes user functions return normally (an exception thrown by one ends the process because packet handling is noexcept).')
P('C16', 'Work is accepted and taken, or refused with an exception, never lost',
  'Giving a task or a timer to an executor, to one of its worker threads or to the timer queue has exactly two outcomes: the work is in the queue of a worker of that very executor, '
  'or the caller gets the "shut down" exception and nothing was taken. The decision is made under the lock that shutdown takes before it closes the queue, and once shutdown has begun '
  'it stays closed, so no interleaving with shutdown puts work where nobody will look for it.',
  'schedules histories', 'every interleaving of posting, from any thread or worker of the same or another executor, with shutdown',
  'tests post and shut down from one thread, and never post to one pool from a worker of another',
  ['src/concurrency/executor/manual.cc', 'src/concurrency/executor/thread.cc', 'src/concurrency/executor/worker_thread.cc', 'src/concurrency/executor/thread_pool.cc', 'src/engine/timer_queue.cc'],
  [('abort test and push in one section', 'src/concurrency/executor'), ('own-worker test', 'src/concurrency/executor/thread_pool.cc ThreadPool::enqueue'), ('add_timer', 'src/engine/timer_queue.cc')],
  'path-sensitive analysis of every posting operation with lock sections, abort facts and ownership of the worker',
  'What happens to accepted work afterwards is C17 to C19; std::bad_alloc is not considered.')
P('C17', 'No wakeup is lost and no worker leaves work behind',
  'A thread that sleeps until there is work, a finished worker, a connection or a shutdown is woken by every change that it waits for, whatever the interleaving: the change is made under the lock of '
  'the wait, or that lock is taken in between, and all threads that may wait for it are notified. A pool or worker thread sleeps or leaves for idleness only when its queue is empty under its lock, '
  'and posting to a worker that has left starts a new one.',
  'schedules', 'every interleaving of posters, waiters, idle timeouts and shutdown on every condition variable and semaphore of the framework',
  'a lost wakeup needs a preemption between the test and the wait, or a post in the instant of the idle timeout; tests see neither',
  ['src/concurrency/executor/manual.cc', 'src/concurrency/executor/thread.cc', 'src/concurrency/executor/worker_thread.cc', 'src/concurrency/executor/thread_pool.cc', 'src/engine/timer_queue.cc', 'src/net/connection/manager.cc', 'include/plain/sys/thread.h', 'src/basic/async_logger.cc'],
  [('condition variables', 'src/concurrency/executor/manual.cc'), ('semaphore and hint flag', 'src/concurrency/executor/thread_pool.cc wait_for_task'), ('idle worker restart', 'src/concurrency/executor/thread_pool.cc ensure_worker_active'), ('network worker', 'src/net/connection/manager.cc wait_work')],
  'condition-variable protocol analysis: wait predicates extracted from the source, every change of their fields followed to its notification',
  'Timed waits without predicate (the logger) only bound latency and are exempt; fairness and timing are not claimed.')
P('C19', 'Accepted tasks run exactly once, first come first served where promised',
  'Every task an executor has accepted is run exactly once by one of its threads or, when the executor shuts down or is cleared first, not at all: none is lost, run twice or given to two '
  'workers, also when a batch is divided among the workers of a pool or a worker passes queued tasks on to idle ones. The manual executor and the worker thread run tasks in the order in which they were accepted.',
  'inputs schedules histories', 'every batch size, number of workers, queue content and interleaving of posters, workers and shutdown',
  'tests post a few hundred tasks with sizes that divide evenly or hide a lost remainder behind timing',
  ['src/concurrency/executor/manual.cc', 'src/concurrency/executor/thread.cc', 'src/concurrency/executor/worker_thread.cc', 'src/concurrency/executor/thread_pool.cc', 'include/plain/concurrency/executor/inline.h'],
  [('taking', 'src/concurrency/executor/manual.cc loop_impl'), ('donation', 'src/concurrency/executor/thread_pool.cc balance_work'), ('batch division', 'src/concurrency/executor/thread_pool.cc enqueue')],
  'ownership and typestate analysis of tasks with symbolic queue positions and inductive loop invariants',
  'Together with C16 (acceptance) and C17 (wakeups); threads of an executor share no queue except under its lock (C11).')
P('C18', 'Shutdown ends every thread, discards what was not started, and happens once',
  'When the shutdown of an executor or of the timer queue, the stop of the logger or of a connection manager, or the destructor of the plain thread pool returns, every thread that belongs to the object was told to stop, '
  'woken and joined, and the tasks that were not started are gone from its queues. A second shutdown does nothing, and after shutdown was requested no thread of an executor starts more than the one task it has already decided to run.',
  'schedules histories', 'every number of workers, queue content, repeated or concurrent shutdown and every worker state (idle, running, never started)',
  'tests shut down executors whose workers are idle or finished, once, from one thread',
  ['src/concurrency/executor/manual.cc', 'src/concurrency/executor/thread.cc', 'src/concurrency/executor/worker_thread.cc', 'src/concurrency/executor/thread_pool.cc', 'src/engine/timer_queue.cc', 'src/basic/async_logger.cc', 'src/net/connection/manager.cc', 'src/sys/thread.cc'],
  [('shutdown', 'src/concurrency/executor/thread_pool.cc ThreadPoolWorker::shutdown'), ('stop', 'src/net/connection/manager.cc Manager::stop'), ('consumers', 'src/concurrency/executor/worker_thread.cc drain_queue_impl')],
  'typestate analysis of threads, stop flags and queues along every path of every ending function, with counted container positions',
  'Assumes shutdown is not called from a thread of the object itself; that workers return when they see the flag is C17.')
P('C22', 'Timers fire when due, once per round, never after cancel, and are never lost',
  'A timer is fired only when its deadline has passed, only while it is not cancelled, and once per round; a repeating timer is then due again after its current frequency, a one-shot timer is gone, and no other timer is lost, disturbed or overslept when timers are added, fired or removed in any order. '
  'Cancelling, destroying or overwriting a timer keeps its callable from being started afterwards; making a timer needs an executor, starts it at now plus the due time, and takes over the callable only if it was given as an rvalue. An executor that has shut down costs a timer its rounds, never the process.',
  'inputs schedules histories', 'every order of adding, firing, cancelling and removing timers, every set of deadlines including equal ones, and every interleaving of the queue thread with its users',
  'tests use a few timers with well separated deadlines and live executors',
  ['src/engine/timer_queue.cc', 'include/plain/engine/timer_queue.h', 'src/engine/timer.cc', 'include/plain/engine/timer.h'],
  [('ordered set', 'src/engine/timer_queue.cc TimerQueueInternal::process_timers'), ('queue thread', 'src/engine/timer_queue.cc TimerQueue::Impl::work_loop'), ('firing', 'src/engine/timer.cc TimerStateBasic::fire')],
  'abstract execution with time points as linear values and typestate of timers in the ordered set, its index and the request queue',
  'Clock accuracy and the latency of timed waits are not judged; the locks are C11, the wakeups C17, the end of the queue thread C18.')
P('C20', 'A result is published once, reaches whoever waits, and is freed once',
  'The value or exception of a result is complete before it is published, it is published exactly once, and then every waiter gets it: a blocked thread is woken, a suspended coroutine, when_any or shared result is resumed exactly once, and nobody is told "done" or resumed before. '
  'Getting a value returns it or rethrows the stored exception, an empty result or promise throws, and a dropped promise breaks its result. The state is freed once, by the side that finishes last, and neither side uses it after the other may have freed it.',
  'schedules histories', 'every interleaving of the producer with a consumer that waits, polls, times out, awaits, shares, joins when_any or gives up; every value, exception and dropped side',
  'tests finish results long before or long after the consumer registers; the windows between the registration steps are never hit',
  ['src/concurrency/result/detail/state.cc', 'include/plain/concurrency/result/detail/state.h', 'include/plain/concurrency/result/detail/producer_context.h', 'src/concurrency/result/detail/consumer_context.cc', 'src/concurrency/result/detail/shared_state.cc', 'include/plain/concurrency/result/detail/shared_state.h', 'include/plain/concurrency/result/when.h', 'include/plain/concurrency/result/promise.h', 'include/plain/concurrency/result/basic.h', 'include/plain/sys/atomic_wait.h'],
  [('registration', 'src/concurrency/result/detail/state.cc StateBasic::await/when_any/share'), ('publication', 'include/plain/concurrency/result/detail/state.h State::complete_producer'), ('when_any', 'src/concurrency/result/detail/consumer_context.cc WhenAnyContext'), ('shared', 'include/plain/concurrency/result/detail/shared_state.h on_finished')],
  'rely/guarantee typestate of the status word by abstract execution: each side judged for every value the other may have left',
  'One consumer and one producer per state (their pointers are unique). Lazy results and generators: C21.')
P('C23', 'Socket calls report exactly what the system call reported',
  'Every wrapper of a system call on descriptors makes it once with the arguments it was given, returns its result unchanged, and on failure notes errno as the error of the calling thread and returns the failure value; a send or receive that would block is told apart from one that failed. connect is true only if the connection was made, waits as long as asked, and leaves the blocking mode of the descriptor as it was. Listening, connecting and accepting succeed only if every step did.',
  'inputs faults', 'every argument, every result and errno a system call may give at every call, every timeout',
  'tests connect and transfer on loopback, where system calls seldom fail: refused, interrupted, timed out and would-block calls do not occur at every step',
  ['src/net/socket/api.cc', 'src/net/socket/listener.cc', 'src/net/socket/basic.cc', 'src/net/listener.cc', 'src/net/connector.cc', 'src/file/api.cc'],
  [('wrappers', 'src/net/socket/api.cc, src/file/api.cc'), ('connect with timeout', 'src/net/socket/api.cc connect'), ('multi-step setup', 'src/net/socket/listener.cc init/accept, src/net/connector.cc connect, src/net/listener.cc start')],
  'abstract execution of each wrapper with unknown results of the system calls',
  'The code built here (Linux) is judged. What the kernel does with the arguments is assumed as POSIX says.')

P('C24', 'Network readiness is never dropped: what becomes ready is worked or removed',
  'Every event of a readiness backend ends in accept, command, work or removal of the connection it belongs to, a signal does not end the network thread, and no descriptor outside a fd_set is put into one. A raised work flag is worked: it is lowered only when nothing is left to do for it (input before a read and again raised after bytes, output only when everything is sent, command only when no complete message waits), a connection with flags left is scheduled again, and one whose work or socket failed is removed. '
  'At the limit of concurrent works a connection waits, in order and once, and is taken as soon as another work ends.',
  'inputs schedules histories', 'every sequence of socket events, reads, writes, decode results and senders on other threads, every number of busy connections, and every descriptor number',
  'tests exchange a few small messages on loopback with few connections: flags are seldom raised between a test and a lowering, and limits, signals and large descriptors do not occur',
  ['src/net/connection/basic.cc', 'src/net/connection/manager.cc', 'src/net/connection/epoll.cc', 'src/net/connection/select.cc'],
  [('work of a connection', 'src/net/connection/basic.cc process_input/process_output/process_command'), ('scheduling', 'src/net/connection/manager.cc Manager::enqueue, Impl::work'), ('backends', 'src/net/connection/epoll.cc handle_input, src/net/connection/select.cc handle_io')],
  'abstract execution with the flag word as raised and lowered bits and typestate of queued work',
  'The decoder and stream contracts are C05 and C06; the locks C11. Only the backends that are built here (epoll, select) are judged. Fairness between connections is not judged.')

P('C25', 'What the asynchronous logger accepts is written once, whole and in order',
  'A message given to the asynchronous logger goes whole into the current buffer, which has room for it; a full buffer waits behind those that wait already, and the thread appends every buffer it takes over to the file exactly once, from the oldest to the newest, before it is cleared, reused or freed. Buffers are thrown away only when more than 25 wait, and with a notice. '
  'Stopping wakes the thread and waits for it, and the thread ends only after it has written what was accepted until then; a file write continues behind what the system took until all is written or the file reports an error.',
  'inputs schedules histories', 'every sequence and size of messages from any number of threads, every interleaving with the thread and with the stop, and every short write',
  'tests log a few short lines: no buffer fills, no write is short, and nothing is logged between the last collection and the stop',
  ['src/basic/async_logger.cc', 'src/file/utility.cc'],
  [('acceptance', 'src/basic/async_logger.cc AsyncLogger::Impl::append'), ('the thread', 'src/basic/async_logger.cc AsyncLogger::Impl::thread_handle, stop'), ('files', 'src/basic/async_logger.cc File::append, src/file/utility.cc FileAppend::append')],
  'ownership analysis of the log buffers over every path, with exact offsets for file writes',
  'The lock of the buffers is C11. A message is assumed smaller than a log buffer (4 MiB). When files are rolled, and what happens to messages logged after the stop, is not judged.')

N('C30', 'Floating point values survive an rpc call unchanged',
  'Every finite float or double that is packed into a call or a result decodes to the same value on the other side.',
  'inputs', 'every finite float and double value', 'tests try a handful of values',
  ['src/net/rpc/packer.cc', 'src/net/rpc/unpacker.cc'], [('mantissa and exponent', 'src/net/rpc/packer.cc pack float/double')],
  'the encoding computes with frexp/ldexp and casts between floating point and integers; whether the arithmetic is exact for every value is a numeric fact outside any dataflow domain in reach (the layout of the bytes and the sign of the exponent are judged by C04)')
N('C31', 'Digests and encodings match their standards',
  'md5 and base64 deliver for every input what RFC 1321 and RFC 4648 define, and decoding an encoded text gives the input back.',
  'inputs', 'every byte string', 'tests compare a few vectors',
  ['src/basic/md5.cc', 'src/basic/base64.cc'], [('digest', 'src/basic/md5.cc'), ('encoding', 'src/basic/base64.cc')],
  'functional equality with a numeric specification over unbounded loops; static rules could only compare the text of the code with a known implementation')
N('C32', 'Timers and timeouts are accurate',
  'A timer fires within a bounded time after it is due, a timed wait returns within a bounded time after its limit, and an idle loop does not burn the processor.',
  'schedules', 'every load and every schedule of the machine', 'tests allow generous tolerances on an idle machine',
  ['src/engine/timer_queue.cc', 'src/concurrency/executor/worker_thread.cc'], [('queue thread', 'src/engine/timer_queue.cc work_loop')],
  'quantifies over elapsed real time, which no static argument bounds; order and non-loss of timers is C22, wakeups are C17')
N('C33', 'Work is divided fairly and throughput does not collapse',
  'Connections and tasks are served in bounded turns: no connection or worker starves while others are busy, and the load is spread over idle workers.',
  'schedules', 'every load and every schedule', 'tests use few connections and tasks',
  ['src/concurrency/executor/thread_pool.cc', 'src/net/connection/manager.cc'], [('balancing', 'src/concurrency/executor/thread_pool.cc balance_work'), ('round robin', 'src/net/connection/manager.cc Manager::enqueue')],
  'fairness depends on the scheduler and on run times of user code; statically only non-loss and order in the queues are decidable (C19, C24)')
N('C34', 'Messages reach the peer complete, once and in order, end to end',
  'What one endpoint sends on a live connection is dispatched by the other endpoint exactly once, unchanged and in the order of sending.',
  'schedules faults', 'every message sequence, segmentation and schedule of both processes', 'tests exchange a few messages on loopback',
  ['src/net/connection/basic.cc', 'src/net/stream/codec.cc', 'src/net/stream/basic.cc'], [('sending', 'src/net/connection/basic.cc send'), ('receiving', 'src/net/connection/basic.cc process_command')],
  'composes two processes, the kernel and TCP; each local step is decided by C05 (framing), C06 (partial transfers), C07 (buffer), C11 (locks) and C24 (readiness), the composition is not a property of one program text')
