# The properties: text for properties.jsonl, the claim for MANIFEST.json and the
# per-property section of DESIGN.md.  tools/gen.py writes all three.
def P(id, title, statement, over, qtext, why, files, mech, technique, design, note=None, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe)),
        technique=technique, design=design, note=note)

STATELESS = "stateless model checking of the unmodified implementation: exhaustive depth-first enumeration of bounded choice sequences (inputs, environment steps, faults, schedules) with a reference model checked in lock-step"
SCHED = "stateless model checking of the unmodified implementation under a controlled scheduler: every interleaving up to a preemption bound, with happens-before race detection and deadlock detection"

DEFS = []
def add(*a, **k): DEFS.append(P(*a, **k))

add("C01", "TCP packets reach the application whole, once, in order, however segmented",
    "For every byte stream a peer sends to a CCommMgr TCP server and every way the network cuts it into pieces, onRead is called exactly once for each whole packet of the configured framing (short head 0x02/len16/0x03, long head 0x02/len32/0x03, HTTP, raw, user filter), in stream order, with exactly that packet's bytes and the right session, and never before the whole packet has arrived. A stream that cannot be framed gets exactly one onError and its connection is closed; a packet that fits the configured receive limit is never refused, a larger one is refused with the no-buffer error. Bytes of one connection never appear in another's packets.",
    ["inputs", "histories", "schedules"], "all segmentations (every cut position) of streams of up to 3 packets per framing, including malformed and truncated ones; arrival orders and event batches of up to 3 clients; receive limits around the packet size",
    "The tests send whole packets over loopback; they cannot make the kernel cut a packet at each position, batch readiness events, or interleave clients in each order.",
    ["src/CCommMgr.cpp", "src/CEvent.cpp", "include/CSocketBuf.h", "include/CH2T3PackageFilter.h", "include/CH2ShortT3PackageFilter.h", "include/CHttpPackageFilter.h", "include/CRawPackageFilter.h"],
    [("read loop: recv, buffer, cut packets", "CCommMgr::onTcpRead"), ("packet boundary filters", "C*PackageFilter::isWholePkg"), ("receive buffer", "CSocketBuf")],
    STATELESS, "Harness h/tcp_srv.cpp (SPACES_IN): the real CCommMgr and CEvent run over a virtual kernel (kit/mcrt.cpp interposes sockets, epoll, pipes, time). Scripted clients deliver a stream in every segmentation; the oracle in h/netsim.h frames the stream independently and checks every callback.")
add("C02", "Writes arrive complete and in order; close-after-write only after flushing",
    "Whatever the kernel does at each send (takes everything, part, nothing, is interrupted, reports an error), the peer of a CCommMgr session receives exactly the concatenation of the data of the write() calls that returned 0, in call order, except for a missing tail when the connection breaks or is closed by the application; a write() that returns an error contributes at most a prefix of its data. A write with bClose set closes the connection exactly when everything accepted before has been sent, and neither the process nor other connections suffer when the peer is gone.",
    ["fault_sequences", "schedules", "inputs"], "all results of every send (full, 1 byte, n-1 bytes, EAGAIN, EINTR, ECONNRESET) with up to 3 (4) deviations, write patterns of 3 requests, three buffer limits, with and without bClose",
    "Loopback sockets in the tests practically always take all data at once, so partial writes, EAGAIN and send-buffer overflow paths are never exercised in combination.",
    ["src/CCommMgr.cpp", "include/CSocketBuf.h", "src/Utils.cpp"], [("write and buffered remainder", "CCommMgr::write"), ("EPOLLOUT drain", "CCommMgr::onWrite")],
    STATELESS, "Harness h/tcp_srv.cpp (SPACES_OUT): every send outcome is an explored choice of the virtual kernel; the oracle compares the bytes the peer got with the accepted writes.")
add("C03", "Each TCP connection has one clean lifecycle; sessions never mix, limits hold",
    "For every CCommMgr connection: onConnect comes first and once, then data, then at most one terminal callback (onClose when the peer ended it, onError on failure), nothing after it or after the application closed it; its descriptor is then closed exactly once and every one of its callbacks carries its own address, descriptor, server id and a begin time since it came. Using a session that is over (write, close) has no effect on whatever connection now has its descriptor and write reports failure. No more clients than the configured maximum are connected at once, places of departed clients are usable again, and removing a server or destroying the manager closes what belongs to it exactly once.",
    ["histories", "schedules", "fault_sequences"], "all histories of 2-3 clients connecting, sending, closing, resetting, with application actions (write, close, both) in every callback, descriptor reuse, recv/send/accept/epoll failures at up to 1-2 points, client counts around the limit; servers removed from every callback, timer and message with connections in every stage, the port reused; the manager destroyed at the end of every execution",
    "Tests use one or two well-behaved clients; lifecycles depend on the order of events inside one epoll batch, on descriptor reuse and on faults.",
    ["src/CCommMgr.cpp", "include/CCommMgr.h", "src/CEvent.cpp"], [("accept, read, error and close paths", "CCommMgr::onAccept, onTcpRead, onWrite, close"), ("event dispatch", "CEvent::run")],
    STATELESS, "Harness h/tcp_srv.cpp (SPACES_LIFE): client scripts, faults, application reactions and event batches are explored; h/netsim.h tracks each connection's protocol state and the virtual kernel reports descriptor misuse and leaks.")
add("C05", "Outgoing connections: one result, then the same guarantees as incoming ones",
    "Every connect() made through CCommMgr or CNetWorker, at any time (before the loop, or inside a message, timer, read, connect, close or error callback), has exactly one outcome: it returns a negative value and nothing of it remains, or onConnect is called exactly once with whether the connection stands, with its session (address, descriptor, begin time) and the user data given to connect(). After a positive onConnect, data both ways, segmentation, errors and close follow the guarantees of incoming connections; after a negative one nothing follows. Wrong ids, missing descriptors, a full connection table and failed event registrations are reported and leak no descriptor. A new connection that reuses a closed one's descriptor sees nothing of the old one.",
    ["histories", "fault_sequences", "inputs"], "all outcomes (immediate, delayed, refused, refused later) of 2-3 connects started from every place, with peer scripts, send/recv/registration faults at up to 1-2 points, reconnects inside every callback, all segmentations",
    "A test on loopback sees connects that succeed at once or are refused at once; delayed results, failures while registering and reuse of a descriptor inside callbacks do not occur.",
    ["src/CCommMgr.cpp", "src/CNetWorker.cpp", "src/CEvent.cpp"], [("connect and its completion", "CCommMgr::connect, onConnect; CNetWorker::connect, onConnect")],
    STATELESS, "Harness h/tcp_conn.cpp, once for each front end: the virtual kernel chooses each connect's outcome; the oracle (h/netsim.h) tracks each connection's protocol state, descriptor and user data.")
add("C07", "Worker-based server: packets reach the application whole, once and in order",
    "A server run by CNetWorkerMgr/CNetWorker gives the same guarantee as the single-loop server: for every stream and segmentation onRead is called exactly once per whole packet of the configured framing, in order, with exactly its bytes and the right session, never early, and a stream that cannot be framed or exceeds the receive limit gets one onError and is closed. All callbacks of a connection run on the same worker.",
    ["inputs", "histories", "schedules"], "as for the single-loop server: all segmentations of streams of up to 3 packets in five framings, interleaved clients, limits around the packet size",
    "See the single-loop property; the worker code is a separate implementation of the same protocol.",
    ["src/CNetWorker.cpp", "include/CNetWorkerMgr.h", "include/CSocketBuf.h", "src/CEvent.cpp"], [("read loop", "CNetWorker::onTcpRead"), ("hand-off", "CNetWorkerMgr::onAccept, CNetWorker::watch/onEvent")],
    STATELESS, "Harness h/tcp_srv.cpp built with -DUSE_NW -DSPACES_IN: acceptor and worker run as fibers in a fixed order, the environment is explored exhaustively.")
add("C41", "Worker-based server: writes arrive complete, in order; close after flushing",
    "Whatever the kernel does at each send, the peer of a CNetWorker session receives exactly the concatenation of the data of the write() calls that returned 0, in call order, except for a missing tail when the connection breaks or the application closes it; a failed write contributes at most a prefix of its data. A write with bClose closes the connection exactly when everything accepted before has been sent.",
    ["fault_sequences", "schedules", "inputs"], "all results of every send with up to 3 deviations, write patterns of 3 requests, three buffer limits",
    "Loopback sockets practically always take all data at once.",
    ["src/CNetWorker.cpp", "include/CSocketBuf.h"], [("write and buffered remainder", "CNetWorker::write, onWrite")],
    STATELESS, "Harness h/tcp_srv.cpp with -DUSE_NW -DSPACES_OUT.")
add("C42", "Worker-based server: one clean lifecycle per connection, sessions never mix",
    "For every connection handled by a CNetWorker: onConnect first and once, then data, then at most one terminal callback, nothing after it or after the application closed it; its descriptor is closed exactly once and every callback carries its own address, descriptor, server id and a begin time since it came. Using a session that is over has no effect on the connection that now has its descriptor, and write then fails. Connections beyond the configured maximum are refused and closed, and refusals or failures do not disturb other connections.",
    ["histories", "schedules", "fault_sequences"], "all histories of 2-3 clients with application actions in callbacks, descriptor reuse, faults at up to 1-2 points, client counts around the limit",
    "Tests use well-behaved clients only.",
    ["src/CNetWorker.cpp", "include/CNetWorker.h", "include/CNetWorkerMgr.h"], [("accept and hand-off", "CNetWorkerMgr::onAccept, CNetWorker::onEvent"), ("close paths", "CNetWorker::close")],
    STATELESS, "Harness h/tcp_srv.cpp with -DUSE_NW -DSPACES_LIFE.")
add("C09", "Timers fire once, on time, in order; deleting and replacing work anywhere",
    "A timer added to the event loop with a delay of d milliseconds (any 32-bit value) fires exactly once, not before d ms have passed on the clock and not later than the loop was kept busy by handlers, with its own id and data; due timers fire in order of expiry. Adding a timer with an id in use replaces the old one, deleting a timer prevents it, and both work at any time including from within timer handlers. Timers, messages and descriptor events do not starve each other; after stop() the loop returns at its next wake-up, and running it again continues with what is pending.",
    ["histories", "inputs"], "all sequences of up to 2 (3) add/delete operations on 3 timer ids with 4 delays and clock phases before the loop, and up to 3 more operations inside handlers, slow handlers; all pairs of 11 boundary delays up to 2^32-1; all mixes of 4 timers/messages/bytes with stop at every point",
    "Tests wait for one real timer; orders of expiry, replacement inside handlers and delays of weeks are out of reach of wall-clock tests.",
    ["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"], [("timer set and dispatch", "CEvent::addTimer, delTimer, run")],
    STATELESS, "Harness h/event.cpp (SP_TIMER): the real CEvent in virtual time against a model map of timers.")
add("C10", "Messages from any thread are handled exactly once, in order, on the loop thread",
    "Every message posted with addMessage/sendMessage before or while the loop runs, from any thread including the loop's own handlers, is handled exactly once, on the loop's thread, with its type and data, and messages of one sender in the order sent. Posting never blocks for ever, however many messages are pending, and a loop asleep is woken.",
    ["schedules", "histories"], "all interleavings, up to 2 (3) preemptions, of two senders with two messages each, the loop, self-posting handlers and notification pipes that are full after 1, 2 or 64k bytes; memory accesses checked for data races",
    "A test samples one schedule per run; lost wake-ups and queue races need particular interleavings, and the full-pipe case needs 65536 pending messages.",
    ["src/CEvent.cpp", "include/CEvent.h"], [("message queue, lock and wake-up pipe", "CEvent::addMessage, CEvent::run")],
    SCHED, "Harness h/event.cpp (SP_MSG) compiled with the thread-sanitizer instrumentation bound to kit/tsanrt.cpp: fibers under the controlled scheduler, happens-before race detection on every access.")
add("C11", "Descriptor events go to the current registration only; none is lost",
    "A handler registered for reading or writing on a descriptor is called, with the descriptor and its own data, whenever the loop runs and the condition holds, and only then: never after its registration was removed, never another registration's handler, and never because of an event that happened to an earlier use of the same descriptor number. Handlers may add, remove or replace any registration, including their own, and may close and reopen descriptors; a registration the kernel refuses is reported, and can be retried successfully.",
    ["histories", "fault_sequences", "schedules"], "three pipes (read and write ends) and two connections watched in both directions, all initial registrations, all environment events up to 3 (4), seven different registration changes in handlers at up to 2 (3) points, registration failures at every point",
    "The outcome depends on which events share one epoll batch and on descriptor reuse, which a test cannot control.",
    ["src/CEvent.cpp", "include/CEvent.h"], [("registration table and dispatch", "CEvent::addFdEvent, delFdEvent, run")],
    STATELESS, "Harness h/event.cpp (SP_FD): model table of registrations; at every handler call and whenever the loop sleeps, the model and the virtual kernel's readiness are compared.")
add("C18", "The LRU cache is a bounded map that evicts least recently used entries first",
    "For every sequence of operations a CLruCache returns exactly what a map with expiry would: get finds a key if and only if it was stored, not deleted, not expired and not evicted since, and returns the last value stored. Entries are evicted only when the cache holds its configured capacity, least recently used first and never the one just stored, and the number of entries never exceeds the capacity by more than one; getSize always equals the number of entries held.",
    ["histories", "configurations"], "all operation sequences up to depth 5-7 over set/get/delete/clear/time steps on 3-4 keys, capacities from 1 up to beyond the eviction batch",
    "Tests check a handful of sequences with one capacity.",
    ["include/CLruCache.h"], [("recency list and index", "CLruCache::set, get, del")],
    STATELESS, "Harness h/lru.cpp: all operation sequences against a reference model, under AddressSanitizer.")
SEQ = "bounded exhaustive enumeration of inputs and operation sequences executed on the unmodified code in lock-step with a reference model (stateless model checking without threads), memory errors detected by AddressSanitizer"

add("C40", "CMySql queries give exact results and survive lost connections",
    "For every sequence of Init, use, setCharSet, query and escape_string calls and every failure of the client library: query() sends its text once on an open connection and returns exactly the fields, rows (NULL as empty, bytes of any value) or affected row count the server gave, or throws. When the server reports the connection lost (2006, 2013), a new connection is made with the configured host, user, password, port, time limits and character set, the database of the last use() is selected (none if none was chosen) and the query is sent once more; it is never executed twice and never in another database or character set. Errors of the server are thrown, and later calls connect again as needed. Every connection is closed once, every result freed once. MySqlData objects are references: copied, assigned (also from themselves) and released in any order, the rows stay valid while one is left; rows and fields that do not exist are refused.",
    ["histories", "fault_sequences"], "all sequences of up to 3 (4) operations after Init with up to 2 (3) failures or lost connections at any library call; 11 kinds of answers; all sequences of 5 (7) copies, assignments and releases of results",
    "There is no MySQL server in the tests; the code is not even compiled by them.",
    ["src/CMysql.cpp", "include/CMysql.h"], [("reconnecting query", "CMySql::query, Connect, Select"), ("counted results", "MySqlData, MySqlBasicData")],
    SEQ, "Harness h/mysql.cpp: CMysql.cpp is compiled with HAVE_MYSQL_H against a stand-in for mysql.h whose calls are a model of the client library and server; the model records what was executed where, and every library call may fail.", note="Single statements; the object is used after Init was called. A call on a closed handle answers 2006, as libmysqlclient does.")
add("C44", "Process set-up: daemon, resource limits and socket helpers act exactly",
    "SetFileLimit(n) and SetCoreLimit(n) return true exactly when the soft limit of the process is at least n afterwards; they raise what is too low, never lower a soft or hard limit, and touch no other limit. After InitDaemon exactly one process goes on: in a new session that it does not lead, with SIGINT, HUP, QUIT, PIPE, TTOU, TTIN, CHLD, TERM and IO ignored; its parents end with status 0. The socket helpers (Bind, Connect, Listen, Send, SendTo, SetNoneBlock, SetNoDelay, SetSocketBufSize, SetReUseAddr, CreateTcpSock, CreateUdpSock, Close) act on exactly the descriptor, address, port, data and option given and return the kernel's answer with errno intact; Send never raises SIGPIPE.",
    ["configurations", "fault_sequences"], "all combinations of 8 values for soft limit, hard limit and wish, privileged or not, each call failing or not, two calls in a row; every process and every fork outcome of InitDaemon; every helper with every result, 9 ports, 5 addresses",
    "A test cannot change the limits, privileges and sessions of the machine it runs on, nor let fork fail.",
    ["src/Utils.cpp", "include/Utils.h"], [("limits", "SetFileLimit, SetCoreLimit"), ("daemon", "InitDaemon"), ("socket helpers", "Bind .. SendTo")],
    SEQ, "Harness h/setup.cpp: the system calls of Utils.cpp go to a model kernel (linker --wrap) that keeps limits, sessions, dispositions and options.")
add("C45", "Clocks, hashes and session data are exact",
    "GetTickCount is the wall clock in milliseconds, also beyond 32 bits, and GetTimeString the local time as YYYY-MM-DD hh:mm:ss in any time zone. A new StSession is empty; a session's getIp (host order), getStrIp, getPort (host order) tell the client's address exactly, getDelayTime the milliseconds since ddwBeginTime, negative if the clock went back; copies tell the same. Hash depends on the bytes alone: h = 5h + byte (signed), the same for buffers, strings and the bytes of integers, and reads nothing outside.",
    ["inputs", "configurations"], "21 clock values x 4 zones x 6 delays; 12 values per address byte x 9 ports; all byte strings up to 7 (8) over six values and the integers made of them",
    "Tests run at one time, in one zone, from one address.",
    ["include/Utils.h", "include/Define.h"], [("clocks", "GetTickCount, GetTimeString"), ("sessions", "StSession"), ("hashes", "Hash")],
    SEQ, "Harness h/helpers.cpp under the virtual clock, with an independent calendar and hash.")
add("C46", "The managers' timers and messages reach the processor they name",
    "Every timer of CCommMgr (addTimer with a processor) or CNetWorker calls onTimer of exactly that processor (the worker itself) once, on the loop's thread, with its id and data (none: a null pointer), not before its delay has passed and, unless handlers keep the loop busy, when it has; adding it again replaces it, also with another processor, deleting it prevents it. Every message sent from the loop or any other thread calls onMessage of exactly the processor it names once, with its type (any int) and data, in the order of its sender. A null processor is refused. stop() ends the loop, start() continues with what is pending.",
    ["histories", "schedules"], "all sequences of 3 (4) operations before the loop and 2 in handlers out of 10, two timer ids, three delays, two processors, four types; two other threads with two messages each under 2 (3) preemptions",
    "The combinations of replacing, deleting, stopping and sending in handlers are too many for tests, and threads cannot be steered.",
    ["src/CCommMgr.cpp", "src/CNetWorker.cpp", "src/CEvent.cpp"], [("timers", "CCommMgr::addTimer, delTimer, CNetWorker::addTimer, delTimer"), ("messages", "CCommMgr::sendMessage, CNetWorker::sendMessage")],
    SCHED, "Harness h/tm.cpp, built for both managers, in virtual time against a model of the pending timers and messages.")
add("C43", "Signals reach their processor exactly and disturb nothing",
    "After addSigHandler(sig, processor) each occurrence of the signal calls onSignal(sig) of the processor registered last for it, exactly once, and of no other; a null processor and a signal that cannot be handled are reported. A signal at any moment, also one that interrupts the loop's wait or another system call, changes nothing else: no packet, write, connection or timer is lost or repeated, errno of the interrupted code stays, and stop() from onSignal ends the loop.",
    ["schedules", "fault_sequences"], "two clients with packets and answers, signals at up to 2 (3) of all system calls of the loop, interrupting them or not; all sequences of 5 (6) registrations and signals for three signals and two processors",
    "A test cannot place a signal between a system call and the look at its result.",
    ["src/CCommMgr.cpp"], [("signal dispatch", "CCommMgr::addSigHandler, onSignal")],
    STATELESS, "Harness h/tcp_srv.cpp (SPACES_SIG): real signals raised at chosen system calls of the loop in the virtual kernel; the oracle of C01-C03 checks the traffic.")
add("C04", "Packet boundaries are found exactly, from any buffer contents and size",
    "For any bytes received so far, each packet filter answers from those bytes alone, never reading past them or changing them: -1 while the first packet may still become whole, 0 as soon as it is whole (with its total length and the exact place and length of its data, never more than was received), -2 when the bytes can no longer start a valid packet. Short head: 0x02, 16-bit big-endian total length (at least 4), data, 0x03. Long head: 0x02, 32-bit length (at least 6), data, 0x03. HTTP: head up to the first empty line plus Content-Length bytes (any letter case, only as a header line of its own, 0 when absent). Raw: everything received.",
    ["inputs"], "all head bytes, length fields (29 boundary values), sizes 0-13 and last body bytes; packets around every field limit up to 16 MB; all sequences of 5 (6) HTTP head tokens; all header combinations with every prefix",
    "A test feeds a few valid packets; the failures lie in sizes one off, lengths with the top bit set, and text that only looks like a header.",
    ["include/CH2ShortT3PackageFilter.h", "include/CH2T3PackageFilter.h", "include/CHttpPackageFilter.h", "include/CRawPackageFilter.h"], [("boundary functions", "isWholePkg, getRealPkgData")],
    SEQ, "Harness h/filter.cpp: every buffer sits in a heap block of exactly its size under AddressSanitizer; an independent parser gives the expected answer.")
add("C12", "The circular queue between two threads loses, duplicates and reorders nothing",
    "With one thread calling enque and another calling deque on a CCircleQueue of capacity n, at any time and without locks, every item for which enque returned true is returned by deque exactly once, complete, in order. enque fails only when n items are inside, deque only when none is. empty() and full() agree with the contents when the queue is at rest, and items left inside are destroyed with the queue.",
    ["schedules", "histories", "configurations"], "all interleavings at every memory access with up to 4 (6) preemptions of 3-4 enqueues against 3-4 dequeues, capacities 1-3 from every ring position and fill; all sequential operation sequences of length 13 (16); capacities up to 65536 filled and drained",
    "A stress test samples schedules; wrong publication order shows only when the other side runs between two particular instructions.",
    ["include/CCircleQueue.h"], [("ring indices", "CCircleQueue::enque, deque, full, empty")],
    SCHED, "Harness h/cqueue.cpp: every memory access is a scheduling point (volatile index accesses count as acquire/release), items are two words with a checksum, happens-before race detection on the slots.",
    note="Weak memory reordering is modelled only through happens-before: volatile index accesses are taken as acquire loads and release stores, as on x86.")
add("C13", "The blocking queue delivers each item once, in order, and wakes who it must",
    "A CBlockQueue of capacity n used by any number of threads delivers each pushed item to exactly one pop, items of one producer in order; push waits exactly while n items are inside and pop exactly while none is, and neither waits for ever when it could proceed. pop with a time-out returns an item if one is available before the deadline (measured in milliseconds from the call), otherwise false, not before the deadline. front and back give the items pop would return first and last; size, empty, full, clear and max_size agree with the contents.",
    ["schedules", "histories"], "all interleavings with up to 2-3 preemptions and spurious wake-ups of 1-2 producers and 1-2 consumers; timed pops against every arrival time and clock phase, with a competing consumer; all sequential sequences of length 8 (10)",
    "Lost wake-ups and lock misuse after waiting need particular schedules; deadlines near a second boundary need a particular clock.",
    ["include/CBlockQueue.h"], [("waiting and waking", "CBlockQueue::push, pop")],
    SCHED, "Harness h/bqueue.cpp in virtual time.")
add("C14", "Each dispatched task runs once on one worker; stopping and destroying is clean",
    "Every task for which CTask::dispatch returned 0 while the pool runs (or before it is started) is run exactly once, on one of the pool's threads, with its type and data and a worker index below the number of workers; tasks dispatched by one thread start in order, at most one task runs per worker, and tasks may dispatch further tasks. dispatch never blocks for ever and refuses only when the configured number of tasks is waiting. stop() and destruction of an idle pool complete at any time, end all its threads, leave no lock held, and nothing runs afterwards.",
    ["schedules", "histories"], "all interleavings with up to 2 (3) preemptions and spurious wake-ups of 1-2 workers and 1-2 dispatchers with 2 tasks each plus nested dispatch; limits 1-4; stop and destroy at every point",
    "Tests dispatch two tasks and exit; lost tasks, double execution and hanging shutdown depend on the schedule.",
    ["src/CTask.cpp", "include/CTask.h", "src/CThread.cpp"], [("task queue", "CTask::dispatch, CTaskThread::run"), ("shutdown", "CTask::stop, ~CTask")],
    SCHED, "Harness h/task.cpp: threads are fibers of the controlled scheduler; misuse of thread ids, mutexes and conditions is reported.")
add("C35", "The socket buffer is a bounded byte queue",
    "For every sequence of operations a CSocketBuf holds exactly the bytes added and not yet removed, in order: addData(data) succeeds if and only if the result fits the configured maximum and otherwise changes nothing; after addFreeBuf there is free space unless the maximum is reached, and bytes read into the free space and announced with addData(n) are appended; removeData drops from the front; the buffer never exceeds the maximum, and no operation touches memory outside it. Copies are independent; a default constructed buffer is empty.",
    ["histories", "configurations"], "all operation sequences of length 5 (7) over 14 operations for seven initial/maximum size pairs; all copy constructions and assignments on dirty memory",
    "The buffer is only exercised indirectly and mostly empty or with one size.",
    ["include/CSocketBuf.h"], [("buffer growth and shifting", "CSocketBuf::addData, addFreeBuf, removeData")],
    SEQ, "Harness h/sockbuf.cpp against a model string.")
add("C36", "Locks exclude, conditions wake and time out exactly, guards always release",
    "CMutex and CSpinLock admit one holder at a time, tryLock succeeds exactly when the lock is free, unlock frees it; CAutoLock releases on every exit from its scope including exceptions. CReadWriteLock admits any number of readers or one writer, also through the try operations. Condition::wait releases the mutex while waiting and holds it on return, signal wakes a waiter, broadcast all; the timed wait returns true when signalled within the given milliseconds and otherwise false at the deadline, not before, at any time of the clock.",
    ["schedules", "configurations"], "all interleavings with up to 2-4 preemptions of three threads for each lock, all mixes of reader/writer/try; spurious wake-ups; time-outs against signal times at all clock phases",
    "A sequential test cannot show exclusion; deadline arithmetic fails only at certain clock phases.",
    ["include/CLock.h"], [("wrappers", "CMutex, CSpinLock, CReadWriteLock, CAutoLock, Condition")],
    SCHED, "Harness h/locks.cpp in virtual time with happens-before race detection of the protected data.")
add("C39", "Threads run once, join waits, ending is clean; a singleton is built once",
    "CThread::start runs run() exactly once on a new thread, where SIGPIPE is blocked, and reports failure to create one; join returns after run() has ended; stop makes isStoped() true and asks the thread to end; every order of start, stop, join, detach and destruction, repeated or not, acts on the thread at most once and never on a thread id that no longer exists; objects are independent. CSingleton::getInstance returns, from any number of threads at once, the same fully built object, built once.",
    ["schedules", "histories"], "all interleavings with up to 2-3 preemptions of all orders of start/stop/join/detach/destroy, thread creation failing; 2-3 threads asking for the singleton",
    "Using a joined thread's id is undefined and mostly silent; publication races need a schedule inside the constructor.",
    ["src/CThread.cpp", "include/CThread.h", "include/CSingleton.h"], [("thread lifecycle", "CThread::start, stop, join, detach, ~CThread"), ("double-checked creation", "CSingleton::getInstance")],
    SCHED, "Harness h/thread.cpp: the scheduler's thread layer reports any use of a joined, detached or invalid id.")
add("C16", "The buffer queue returns exactly what was pushed, wherever the ring wraps",
    "For every sequence of operations on a CBufferQueue in a memory block, items come out whole, unchanged and in order. A push succeeds exactly when the item and its 8-byte mark leave at least 8 bytes free, otherwise it reports full and changes nothing; an empty item is ignored; pop copies the item into one buffer or fills the first and continues in the second, with their sizes set; an item too long for the buffers is reported and dropped. empty, full and size agree with the contents, attaching to existing memory continues with its contents and refuses headers that do not fit, and nothing outside the block is touched.",
    ["histories", "configurations", "inputs"], "all sequences of 4 (5) of 15 operations from every ring offset for six sizes; one item of every length at every offset with every split of source and destination; damaged headers and sizes",
    "The wrap-around splits mark and data at particular offsets; a test meets a few of them.",
    ["include/CBufferQueue.h"], [("ring with length marks", "CBufferQueue::push, pop, attach, full")],
    SEQ, "Harness h/bufq.cpp: memory and buffers in heap blocks of exact size under AddressSanitizer.")
add("C17", "The buffer queue in shared memory survives concurrency and dying processes",
    "With one pushing and one popping process on the same memory, without locks, every accepted item is popped once, whole and in order; push reports full and pop reports empty only when they were at some moment of the call. If a process dies at any point inside push or pop, another can attach to the memory and continues with either the contents before or after that operation: no other item is lost, repeated or damaged.",
    ["schedules", "crash_points", "histories"], "all interleavings with up to 3 (4) preemptions at every 8-byte access to the shared block of 3 pushes against 3 pops, every ring offset; death before every write of every operation in sequences of 4 (5) operations, from every ring offset, followed by attach and continued use",
    "A test cannot stop a process between two stores.",
    ["include/CBufferQueue.h"], [("order of data and index updates", "CBufferQueue::push, pop"), ("attach", "CBufferQueue::attach")],
    SCHED, "Harness h/bufq.cpp (-DSP_CONC): compiler instrumentation makes every access a scheduling point; for crashes the block is restored to its image before the chosen write.",
    note="Sequential consistency per access; block copies are taken in 8-byte pieces. size() is not checked while both sides run.")

add("C20", "Every bitmap field holds its own value and touches nothing else",
    "A CBitmap<w> (w = 1,2,3,4,5,6,8) of n fields behaves as n independent w-bit unsigned numbers, initially 0: get(i) returns the last value set(i, v) stored, set changes no other field whatever v, an index of n or more is refused (set returns false, get 0) and nothing outside the segment is read or written. Objects attached to the same key see the same fields, contents outlive the object that created them, and clear zeroes every field.",
    ["inputs", "histories", "configurations"], "every width; sizes 1-17 around the group borders; every index inside and outside; every value including too wide ones; other fields empty, full, mixed; sequences of 4 (5) sets/clears through two objects",
    "Fields share bytes and cross byte borders: a wrong mask shows only with particular neighbours, an overrun only at the segment's end.",
    ["include/CBitMap.h", "include/CShm.h"], [("field access", "CBitmap<w>::get, set"), ("attach or create", "CBitmap<w>::init")],
    SEQ, "Harness h/shm.cpp (-DSP_BITMAP): the System V calls are stand-ins over heap blocks of exactly the requested size under AddressSanitizer.",
    note="Copies of a bitmap or segment object (which share one mapping) and attaching while the creator is still inside init are outside the property.")
add("C21", "Shared segments are attached and released exactly; shared arrays keep contents",
    "CShm::create opens the existing segment of a key or, if allowed, creates a zeroed one of the size asked, and tells which; a segment too small is refused. Any refusal by the system is reported, leaves the object unattached and no new segment behind, and a later attempt works. Every attachment is released exactly once, by detach or destruction. A CShmArray's elements are seen alike by every object on the key, survive their objects, and size is the number given at creation.",
    ["histories", "faults", "configurations"], "all sequences of 4 (5) create/attach/detach/destroy operations of two objects over two keys and sizes with up to 2 refused system calls, first id 0 or not; arrays of four element types through two objects with matching and other sizes",
    "Failure paths and order of attach and release are not exercised by the tests.",
    ["include/CShm.h", "include/CShmArray.h"], [("segment life cycle", "CShm::create, attach, detach, ~CShm"), ("element access", "CShmArray::init, operator[]")],
    SEQ, "Harness h/shm.cpp with stand-ins for shmget/shmat/shmdt/shmctl that can fail and that count attachments.",
    note="As for C20.")
add("C22", "CAnyValue binary encoding round-trips every value and reads every valid packing",
    "For every CAnyValue (null, booleans, signed and unsigned integers, doubles, strings of any bytes and length, arrays and maps nested, keys up to 255 bytes), decode(encode(v)) equals v in kind and content, encode appends to its buffer and leaves the value unchanged, and the bytes are the documented ones: a type byte, then big-endian numbers and lengths. decode reads integers and strings packed in any of the allowed widths to the same value, positive or negative, ignores bytes after the value and replaces whatever the object held. Every constructor keeps its argument's value and sign.",
    ["inputs"], "every boundary value of every kind alone, in arrays and in maps; all trees of depth 3; string lengths around 255, 65535; every constructor with every boundary value; every choice of widths a sender can make",
    "The integer and length widths switch at particular values and packing choices are the sender's; tests try a few values.",
    ["include/CAnyValue.h"], [("binary writer", "CAnyValue::encode, encode_*"), ("binary reader", "CAnyValue::decode, decode_*")],
    SEQ, "Harness h/anyval.cpp (-DSP_BIN): an independent encoder, decoder and value model in h/anyval.h; inputs in heap blocks of exact size under AddressSanitizer.")
add("C23", "CAnyValue writes valid JSON and XML that carry the value, and JSON reads back",
    "For every CAnyValue (finite doubles), encodeJSON produces one valid JSON text whose meaning is the value: integers exact over the whole 64-bit range, doubles to 16 significant digits, strings and keys escaped so that every byte, including control characters and NUL, comes back; decodeJSON of it gives the value again. decodeJSON reads every \\u escape and surrogate pair as the right UTF-8 and numbers with sign, fraction and exponent in any surroundings. encodeXML renders the same value with strings in CDATA sections that read as the string, even if it contains ]]>.",
    ["inputs"], "every boundary value of every kind, all trees of depth 3, every byte and every pair of bytes in texts, every byte in keys, all 65536 escapes, surrogate pairs, 22 number forms in 9 surroundings",
    "Single code points, digits and lengths break text formats; tests sample a few texts.",
    ["include/CAnyValue.h"], [("JSON writer and reader", "CAnyValue::encodeJSON, decodeJSON, readString, readNumber"), ("XML writer", "CAnyValue::encodeXML")],
    SEQ, "Harness h/anyval.cpp (-DSP_JSON): texts are judged by an independent JSON parser and an XML matcher (h/anyval.h).",
    note="Not claimed: infinities and NaN, integers beyond 64 bits, unpaired surrogates, minus zero.")
add("C24", "CAnyValue decoders take any bytes safely: valid is read, broken is refused",
    "For every byte string, CAnyValue::decode either reads the value it encodes or throws; it throws for every string that is cut short or has an unknown type, and never reads outside the input, allocates out of proportion to it, recurses without bound or leaves the object unusable. decodeJSON equally: every valid text gives its value (the last of equal keys counts), a text starting an object, array, string or literal that is cut short is refused, and any other text is read or refused without harm. Nesting of 500 levels is accepted.",
    ["inputs"], "all byte strings of length 1-2, all strings of length 5 (6) over the bytes that matter, valid encodings cut at every place and with every byte changed; all texts of 5 (6) of 20 tokens; valid texts cut or changed at every character; repeated keys; nesting to 400000",
    "The decoders face network input; overruns need a length field that disagrees with the data in a particular place.",
    ["include/CAnyValue.h"], [("bounds checks of the binary reader", "CAnyValue::check, decode_*"), ("JSON reader", "CAnyValue::readObj, readArray, readString")],
    SEQ, "Harness h/anyval.cpp (-DSP_ROBUST): an independent decoder and JSON parser decide what is valid; inputs in heap blocks of exact size under AddressSanitizer, nesting in forked executions with a real stack.",
    note="What happens to JSON with extra text after the value, trailing commas or malformed numbers is not claimed, only its safety. Type 9 (customer defined) is likewise only safe.")
add("C25", "CAnyValue behaves as an independent value under all its operations",
    "CAnyValue objects are values: after any sequence of assignment (also from itself or from a part of itself), copy, clear, insert, operator[], erase, push and pop at both ends, element access, decode and decodeJSON, each object holds exactly what a plain value would, and no operation on one object changes another. Using a value as the wrong container or an index outside the array is refused with an exception and changes nothing; popping an empty array and erasing a missing key do nothing. The is... and as... questions and conversions agree with the content (0, \"\" or false for other kinds).",
    ["histories", "inputs"], "all sequences of 4 (5) of 17 operations on two values with six kinds of content, each step compared with the model through every query; all sequences of 3 assignments/decodes into used objects",
    "Aliasing and reuse faults need a particular order of operations and show as silent memory errors.",
    ["include/CAnyValue.h"], [("ownership of the held object", "CAnyValue::assign, clear, init*"), ("queries", "CAnyValue::is*, as*, operators")],
    SEQ, "Harness h/anyval.cpp (-DSP_OPS) in lock-step with a plain value model under AddressSanitizer.")
add("C26", "CAnyPackage puts header and value on the wire as documented and reads them back",
    "The packed head of a CAnyPackage is 43 bytes: 0x2, then len, version, serviceId, cmd, seq, format, uid, clientIp, errno and flag big-endian at their documented widths; setting a field changes exactly its bytes and reading it returns what was set, over its whole range (uid 64 bits). encode, encodeJSON and encodeXML produce head plus the encoded value (plus the end mark if asked) and replace an earlier body; decode and decodeJSON of it return the same head and value. A package shorter than the head or with a broken body is refused, nothing outside the given bytes is read, and the object stays usable.",
    ["inputs", "histories"], "all sequences of 3 of 10 header fields over boundary values; six kinds of value in three formats, with head set in two ways, with and without end mark, into used objects; valid packages cut at every length and with every byte changed to every value",
    "Byte order and width errors show only for particular magnitudes and cut packages only at particular lengths.",
    ["include/CAnyPackage.h", "include/CAnyValue.h"], [("header fields", "AnyHeader::set*, get*"), ("head and body assembly", "CAnyValuePackage::encode*, decode*")],
    SEQ, "Harness h/pkg.cpp (-DSP_ANY): header bytes from the documented layout, bodies from the reference encoder of h/anyval.h; inputs in blocks of exact size under AddressSanitizer.")
add("C27", "CPackage stores typed fields big-endian and never reads outside the package",
    "A CPackage<Head> is its head followed by the body bytes written. Every write and << of an integer appends it big-endian (write returns its position, writePos overwrites in place), strings and buffers append verbatim. Every read, >>, readString, readString1/2/4 returns exactly what was written at the read position and advances by its size, or, if fewer bytes are left (or the length is negative), throws. isEnd tells whether n more bytes can be read. seek moves only inside the body; data shorter than the head is refused; copies are equal and independent.",
    ["inputs", "histories"], "every type, 13 boundary values, every way of writing and position; all sequences of 4 of 16 operations with their arguments on two head types; all bodies of 5 bytes over length-like values with 3 reads of every kind",
    "Overruns need a length field or position that disagrees with the data after particular operations.",
    ["include/CPackage.h"], [("writers", "CPackage::write, writePos, operator<<"), ("readers with bounds checks", "CPackage::operator>>, read, readString*"), ("position", "CPackage::seek, setPkgData, setPkgBody, clear")],
    SEQ, "Harness h/pkg.cpp in lock-step with a byte string and a position, under AddressSanitizer.",
    note="Seeking exactly to the end is allowed either way. What readString returns for a string without its NUL is only required to stay inside the package.")
add("C28", "CHttpReader extracts what an HTTP request says and survives any bytes",
    "For every well-formed GET, HEAD or POST request, setData accepts it and the accessors return exactly its method, path, version, headers (any letter case, with or without a blank after the colon), query or form values URL-decoded, body, cookies, and for multipart/form-data every value and file (name, type, data) byte for byte. Values asked for but not sent give the default. A reader can be reused: nothing of an earlier request remains. For any other bytes setData returns or refuses without throwing, reading outside the data or making later valid requests fail; a first line that is not 'method URI version' is refused.",
    ["inputs", "histories"], "requests composed of 3 methods, 4 paths, 2 versions, up to 2 (3) headers in 4 spellings, up to 3 cookies and 3 parameters with 7 values, multipart bodies of 0-2 (3) parts of 12 kinds; every pair of requests on one reader; texts of 4 (5) of 19 tokens behind 4 beginnings; valid requests cut, changed, deleted or extended at every character",
    "Parsers break on a missing line end or blank at one place, on reuse, or on binary uploads; tests send a few tidy requests.",
    ["src/CHttpReader.cpp", "include/CHttpReader.h"], [("request line and headers", "CHttpReader::setData"), ("values and cookies", "CHttpReader::parseValues, parseCookies"), ("multipart bodies", "CHttpReader::parsePostFormData")],
    SEQ, "Harness h/http.cpp (-DSP_REQ): requests are generated together with what they mean, so the generator is the oracle; arbitrary texts are checked for safety under AddressSanitizer.",
    note="Not claimed: query parameters of POST and HEAD requests, values of broken requests.")
add("C29", "CHttpWriter renders exactly the response that was set up",
    "After any sequence of settings, end() yields one well-formed HTTP/1.1 response: status line with the code and its reason, each header that was set exactly once with its full value whatever its length, every cookie with its value, domain, path and expiry, Content-Type, a Date of now, a Content-Length equal to the body (or the length set by setBodyLen), an empty line and the body byte for byte. Nothing else is added. begin() starts a new response in which nothing of the previous one remains; a new object needs no begin().",
    ["histories", "inputs"], "all sequences of settings up to the bound with short and 3000-byte values, in every order, two responses in a row with every pair of settings, every status code",
    "Leftovers and truncation appear only with particular lengths or reuse.",
    ["src/CHttpWriter.cpp", "include/CHttpWriter.h"], [("rendering", "CHttpWriter::end"), ("reset", "CHttpWriter::begin")],
    SEQ, "Harness h/http.cpp (-DSP_RSP): an independent response parser compares with a model of the settings.",
    note="Setting the same cookie twice is not claimed, nor the text of reason phrases.")
add("C30", "URL coding and HTTP dates round-trip for every byte and every day",
    "FormUrlEncode leaves only unreserved characters, and FormUrlDecode (and any standard decoder) gives the text back, for every byte string. FormUrlDecode decodes + and every %XX in either case, and takes any other text without throwing or reading outside. GetGMTDate formats any time as an RFC 1123 date; Gmt2Time reads RFC 1123, RFC 850 and asctime dates to exactly that time, for every day from 1970 to 2039, and returns 0 for texts that are no date without reading past their end. charToHex and hexToChar are inverse; InetNtoA prints dotted quads.",
    ["inputs"], "all strings of up to 2 bytes; all texts of 5 (6) characters around %; every day of 1970-2039 at five times of day in three formats; dates cut at every place or with any character changed; all byte values",
    "Escapes cut at the end and particular days or years break such code; tests use a few.",
    ["src/Utils.cpp", "include/Utils.h"], [("URL coding", "FormUrlEncode, FormUrlDecode"), ("dates", "GetGMTDate, Gmt2Time"), ("hex", "charToHex, hexToChar")],
    SEQ, "Harness h/text.cpp (-DSP_URL) with an independent decoder and calendar; texts in blocks of exact size under AddressSanitizer.",
    note="Two-digit years are claimed for 1970-2037; dates with plausible but wrong fields only for safety.")
add("C31", "CConfig reads every value of a configuration file under its section",
    "After loadConfig, getValue(section, name) returns the text after the first '=' of the last line 'name = value' inside that section, with surrounding blanks removed, and the default for everything else; lines starting (after blanks) with # or ;, empty lines and lines without '=' set nothing; [section] lines switch the section; line ends may be LF or CRLF and the last may lack one. Typed getters convert the text; getIPAndPort and getIPAndPortList split addresses. Loading further files adds to and overrides values; a file that cannot be opened is reported and changes nothing.",
    ["inputs", "histories"], "all files of up to 4 (5) lines of 14 kinds with both line ends, all typed getters over boundary texts, address lists, all sequences of 3 loads",
    "Indentation, missing '=' or a section on the wrong line change only particular files.",
    ["src/CConfig.cpp", "include/CConfig.h"], [("parsing", "CConfig::loadConfig"), ("getters", "CConfig::getValue, getIPAndPort, getIPAndPortList")],
    SEQ, "Harness h/text.cpp (-DSP_CFG): files written to a private scratch directory, compared with an independent reader.")
add("C32", "The string helpers split, replace, trim and extract exactly",
    "For every input, SplitStr appends the parts between occurrences of the separator (the whole text for an empty separator), ReplaceStr replaces each non-overlapping occurrence from the left and terminates for every argument, TrimStr removes blanks, tabs and line ends at both ends only, GetMiddleStr returns the text between the marks and the position behind them or leaves its output unchanged, SplitHostPort splits at the first separator, ToStr prints numbers and texts.",
    ["inputs"], "all texts over two letters up to 6-7 (9) characters with all separators, finds and replacements up to 3; all texts of 6 (8) over blanks, letters and NUL",
    "Overlaps, empty arguments and separators of several characters are where such code breaks.",
    ["include/StringHelper.h"], [("helpers", "SplitStr, ReplaceStr, TrimStr, GetMiddleStr, SplitHostPort, ToStr")],
    SEQ, "Harness h/text.cpp (-DSP_STR) against direct definitions.")
add("C33", "CAsyncLog and CLog: every accepted line reaches the file once, whole, in order",
    "Each line a write accepted is in the log files exactly once, unbroken, with the lines of one thread in the order it wrote them, however writers, flush() and the background thread interleave: after flush() returns for lines written before it, within 2*iLogSecs+1 seconds without flush, and in any case after destruction, which also ends the thread. A line is refused only when the bytes waiting plus the line exceed one buffer. A file that cannot be opened or written for a while delays lines and loses none. Rotation keeps at most uiLogFileNum files per day, the newest; files are base_DATE.log and base_DATE_n.log. CLog writes exactly the enabled levels, with time, tag and optional file and line.",
    ["schedules", "histories", "faults"], "all schedules of 1-2 writers, a flusher and the background thread with 1-2 preemptions (2-3) and three buffer sizes; all histories of 3 (4) writes with pauses and flushes; all rotations of 5 (7) steps; failing opens and disk writes at every place",
    "Lines are lost or torn only when a buffer switch meets a flush or a write error; no test looks at the files.",
    ["src/CAsyncLog.cpp", "include/CAsyncLog.h", "include/CLogBuffer.h", "src/CLog.cpp", "include/CLog.h"], [("double buffering", "CAsyncLog::writeBuffer, flush"), ("background thread", "CAsyncLog::run"), ("rotation", "CAsyncLog::shiftFiles"), ("levels", "CLog::log")],
    SCHED, "Harness h/alog.cpp: the real classes under the controlled scheduler and virtual clock, with real files in a private directory; the files are compared with the lines written. Data races are reported.",
    note="uiLogFileNum is at least 2 and messages stay below 4000 characters; partial writes by the disk are not claimed.")
add("C34", "CFileLog: lines are in the file when write returns; rotation keeps the newest",
    "When write, writeRaw or << return success the line is in the log file, whole, once and after all earlier ones, whatever other threads write. A line is refused only if the file cannot be opened or written, and the log works again as soon as it can. A file is closed by the first line after it reached dwLogFileMaxSize, and of each day exactly the newest uiLogFileNum files remain, in order.",
    ["schedules", "histories", "faults"], "all schedules of 2-3 writers up to 3 and 2 preemptions (5 and 3) with and without rotation; all sequences of 6 (7) lines of three sizes and half-day steps; all placements of failing writes and a missing directory in 4 (5) lines",
    "Rotation at a boundary, a date change or an error is where lines vanish; tests look at none.",
    ["src/CFileLog.cpp", "include/CFileLog.h"], [("writing", "CFileLog::writeFile"), ("rotation", "CFileLog::shiftFiles")],
    SCHED, "Harness h/alog.cpp (-DSP_FILE): an oracle computes the content of every file; data races are reported.",
    note="uiLogFileNum is at least 2; text chained after << is not one line for concurrency or errors.")
add("C37", "CTcpConnector connects, sends and reads exactly and on time",
    "connect returns true exactly when the peer accepts within the timeout, also at once, and otherwise false within it. write sends a prefix of its data and returns its length, or -1, after which the connection is closed; without a connection it first connects again to the last address. read returns the next bytes of the stream, 0 at its end (closing the connection) or -1 after exactly the timeout or on an error; readn returns n bytes unless the stream ends. No call raises SIGPIPE, descriptors are closed once and none leak, and descriptors of 1024 and more work.",
    ["histories", "faults", "inputs"], "all sequences of 4 (5) operations against peers that accept at once or late, refuse or never answer, and send, close or reset in 8 ways at set times; two connections in full, later ones reduced; real sockets around descriptor 1024",
    "Connections that answer at once, late or break are not in the tests, which need a web server.",
    ["src/CTcpConnector.cpp", "include/CTcpConnector.h"], [("connecting", "CTcpConnector::_imp_connect"), ("transfer", "CTcpConnector::write, read, readn")],
    SEQ, "Harness h/connector.cpp: the real class on the simulated kernel with virtual time; a model predicts every result, its time and the open sockets.",
    note="What readn had read before it fails is lost; sizes of 0 and timeouts of 0 are not claimed.")
add("C38", "CUdpConnector sends each datagram to its server and reads each that arrives",
    "After connect, bound to the given local address or the first private one of the host (any address if there is none), each write sends one datagram with exactly its bytes to the server and returns their number, or -1 if it could not be sent; each read returns the next datagram that arrived, cut to the buffer, or -1 after the timeout. connect fails if the local port is in use. Connecting again, closing and destruction release the socket.",
    ["histories", "faults"], "all sequences of 5 (6) operations of 10 kinds with four sets of interfaces, failing sends and datagrams of 2, 700 and 65000 bytes",
    "Reuse, failing sends and hosts without private addresses are in no test.",
    ["src/CUdpConnector.cpp", "include/CUdpConnector.h"], [("connecting", "CUdpConnector::connect, getLocalIp"), ("transfer", "CUdpConnector::write, read")],
    SEQ, "Harness h/connector.cpp (-DSP_UDP) on the simulated kernel with virtual time and a model.",
    note="Empty datagrams are reported like timeouts and not claimed.")
add("C06", "UDP servers hand over each datagram whole with its sender and send exactly",
    "For each datagram of up to dwMaxRecvBufLen bytes that arrives at a UDP server of CCommMgr, in order, onRead is called exactly once with the package in it (the whole datagram for raw servers) and the sender's address, or onError if it is no whole package, too large or could not be received; nothing of one datagram shows up with another, and servers do not disturb each other. writeTo sends one datagram with exactly the given bytes to the given address and reports failures. A server can be removed, also from onRead, which closes its port and leaves nothing behind for later servers or connections; failing creation leaves nothing.",
    ["histories", "faults", "inputs"], "all histories of 3 (4) steps of arrivals (one or two datagrams of sizes around the buffer sizes, whole or broken, in four framings), writeTo, receive errors, removal, re-creation and a TCP connection afterwards, with and without replies from onRead",
    "No test sends a datagram; sizes above the initial buffer were cut.",
    ["src/CCommMgr.cpp", "include/CCommMgr.h"], [("receiving", "CCommMgr::onUdpRead"), ("sending", "CCommMgr::writeTo"), ("removal", "CCommMgr::rmSrv")],
    SEQ, "Harness h/udp.cpp: the real event loop on the simulated kernel; every callback is compared with the queue of expected ones.",
    note="Bytes after the first package of a datagram and empty datagrams are not claimed.")
add("C15", "Worker pools answer each request once, on its own connection only",
    "With a CAnyWorkerPool, CHttpWorkerPool or CRawWorkerPool as the processor of a TCP server, every whole request a client sends is given to exactly one worker, never two at once to the same worker, and its response is sent to that client's connection exactly once, whole and framed so that the client can cut it (with one thread, in the order of the requests). A response never reaches another connection, not even one that took over the descriptor of a client that left. The close flag closes the connection after the response. A worker's exception, a full queue, a request that cannot be decoded and a message that cannot be posted go to the error handler, if one is set, and stop nothing else. No request or response is leaked or used after it was freed, and destroying the pool ends its threads first.",
    ["schedules", "histories", "fault_sequences"], "all interleavings, up to 1 (2-4) preemptions, of the event loop, 1-2 worker threads and 2-3 clients sending 1-3 requests each (answers that work, throw, close, are large), clients leaving by close, reset or a broken request and their descriptor being reused; queues with and without room; failing posts; destruction while workers run; for each of the three pools",
    "The pools' test programs are interactive servers; lost, doubled or misdirected answers need a particular schedule of worker, loop and client.",
    ["include/CAnyWorkerPool.h", "include/CHttpWorkerPool.h", "include/CRawWorkerPool.h", "include/CAnyWorker.h", "src/CTask.cpp", "src/CCommMgr.cpp"], [("request hand-off", "onRead, CTask::dispatch"), ("answers", "onWork, CCommMgr::sendMessage, onMessage"), ("destruction", "~C*WorkerPool, CTask::joinThreads")],
    SCHED, "Harness h/pool.cpp: the real pool, task threads and event loop on the simulated kernel under the controlled scheduler; once with AddressSanitizer, once with every memory access instrumented for races.",
    note="HTTP requests that the reader refuses are still given to the worker; responses larger than the send limit are dropped: neither is claimed.")
add("C08", "CNetWorkerMgr gives each connection to one worker thread, which serves it alone",
    "Every connection a CNetWorkerMgr accepts, however many arrive together, is given to exactly one of its workers, in turn; that worker gets onConnect first and once, then every packet and the close, all on its own thread with the right session, never two callbacks at once, also when a descriptor passes from a connection of one worker to one of another. Timers and messages of a worker, from its own or another thread, run on its thread with their data. A failing accept is reported and loses no other connection; a connection above the limit is closed and reported, and never handed over. stop(), from a worker or any other thread, ends all workers and the accepting loop.",
    ["schedules", "histories", "fault_sequences"], "all schedules with up to 2 (3) departures from round robin of 1-3 workers, the accepting thread and 2-3 clients (answers at once, from timers, from messages, to another worker's queue; clients leaving; descriptors reused), batches of 2-6 connections with every accept failure, the limit, stop at every point; data races between acceptor and workers",
    "The test program is an interactive server; hand-off races need a particular schedule.",
    ["include/CNetWorkerMgr.h", "src/CNetWorker.cpp", "include/CCircleQueue.h", "src/CThread.cpp"], [("accept and distribution", "CNetWorkerMgr::onAccept"), ("hand-off", "CNetWorker::watch, onEvent")],
    SCHED, "Harness h/nwmgr.cpp: acceptor, workers and clients are fibers over the simulated kernel; departures from round-robin order are bounded (delay bounding); once with AddressSanitizer, once with every access instrumented.",
    note="Stopping before all threads have started is not claimed; the manager never frees its workers.")
add("C19", "The LRU caches behave under threads as some sequential use would",
    "CLruCache and CLruCacheV2 may be used by any number of threads at once: set, get, del, clear and getSize return what they would if the operations had taken place one after another in some order consistent with their beginnings and ends, and leave that order's content. There are no data races and no deadlocks, and no entry is used after it was freed. (For CLruCacheV2: set, get and del.)",
    ["schedules", "histories"], "all pairs of threads with two (three) operations and one, and all triples with one each, on full and ample caches, all interleavings up to 2 preemptions at lock boundaries with every access checked for races",
    "A test with threads samples a few schedules and cannot tell a legal from an illegal outcome.",
    ["include/CLruCache.h", "include/CLock.h"], [("locking", "CLruCache::set, get, del, clear, getSize"), ("shards", "CLruCacheV2")],
    SCHED, "Harness h/lruconc.cpp: linearizability by brute force: the results and the final content are compared with every permitted order of the same operations on a fresh cache (whose sequential behaviour is C18).")
