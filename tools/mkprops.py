#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the single source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

PROC = "src/common/maf/messaging/Processor.cpp"
TSQ = "include/maf/threading/ThreadSafeQueue.h"
SIG = "include/maf/utils/SignalSlots.h"
OBS = "include/maf/utils/Observable.h"
REQ = "src/common/maf/messaging/client-server/ServiceRequester.cpp"
PRV = "src/common/maf/messaging/client-server/ServiceProvider.cpp"
CB = "src/common/maf/messaging/client-server/ClientBase.cpp"
SB = "src/common/maf/messaging/client-server/ServerBase.cpp"

prop("C01", "A processor runs its accepted work once, in order, on its own thread",
 "Every task a processor accepts is executed exactly once, in the order in which the submissions were accepted, by the thread(s) currently running that processor, and with a single runner no two of its queued tasks overlap. "
 "A plain submission made on the processor's own thread runs at once, inside the submitting call; an asynchronous submission never does. "
 "Time-bounded runs execute what is available until their deadline (a one-shot run at most one task) and report whether they executed anything.",
 ["schedules", "programs"],
 "For every program of concurrent and nested submissions against running, not yet running and time-boundedly running processors, and every interleaving of the submitting and running threads.",
 "The tests submit from one or two threads and look at sums; they fix one schedule per run and never compare order, nesting or executing thread.",
 [PROC, TSQ, "include/maf/messaging/Processor.h"],
 [("pending execution queue", PROC), ("own-thread detection", PROC), ("locked FIFO queue", TSQ)],
 ["which task runs when, on which thread, inside which call", "return values of submissions and bounded runs"],
 [("queue", "accepted, not yet started tasks in order", PROC), ("runner", "which thread is inside a run call", PROC)])

prop("C02", "Stopping a processor ends its runs, discards pending work, and can be undone",
 "Once a processor has been stopped, every run in progress returns after at most the task it is executing, tasks still pending are discarded and never execute - not even after the processor is made reusable again - and submissions and posts are refused. "
 "After being made reusable it accepts and runs new work as a fresh processor would. "
 "No interleaving of stop with submissions, runs, other stops or reuse loses the wake-up, leaves a thread blocked for ever, or crashes.",
 ["schedules", "histories"],
 "For every history of submit/run/stop/reuse calls issued by any number of threads and every interleaving of them, including a stop that falls between a runner's emptiness check and its going to sleep.",
 "A lost wake-up or a leftover task needs a particular interleaving of a few instructions; the tests stop processors only from inside their own tasks or after long sleeps.",
 [PROC, TSQ], [("close and clear of the queue", PROC), ("closed flag and condition variable", TSQ)],
 ["whether run calls return", "tasks executed after stop returned", "results of submissions after stop"],
 [("closed", "processor refuses work", TSQ)])

prop("C03", "A waitable submission completes with its task, or is reported broken",
 "The completion handle of a waitable submission (task or message) becomes ready only after the task has finished, carries the exception the task threw, and is reported as broken if the task was discarded before it ran; it is never left pending for a task that will no longer run. "
 "A waitable submission on the processor's own thread is executed inside the call, so waiting for it there cannot deadlock; the value-returning form returns the task's value. "
 "A refused waitable submission yields an invalid handle.",
 ["schedules", "histories"],
 "For every interleaving of waitable submissions, waits with and without timeout, runners and stops, from inside and outside the processor's thread.",
 "The tests wait on a handful of waitables in one order; a waiter stranded by a racing stop or destruction cannot show in them.",
 [PROC, "include/maf/messaging/Processor.h", "include/maf/threading/Upcoming.h"],
 [("packaged task per waitable submission", PROC), ("inline execution on own thread", PROC)],
 ["result of waiting on the handle", "order of task end and wait return"])

prop("C04", "A posted message reaches exactly the handlers connected for its type",
 "Posting a message is accepted if and only if the processor is not stopped and at least one handler for that message type is connected, which is also what the processor's connected query reports; otherwise nothing is ever delivered. "
 "When an accepted message is processed, on the processor's thread and in posting order, each handler connected for its type at that moment is called exactly once with the posted value, in connection order, and handlers of other types or disconnected handlers are not called. "
 "Disconnecting one handler, disconnecting a whole type and reconnecting a handler take effect for every message processed afterwards.",
 ["histories", "schedules"],
 "For every history of connect/disconnect/reconnect/post over several message types, handlers and posting threads, including disconnects issued by handlers while their message is being processed.",
 "The tests connect a few handlers and disconnect them in one fixed order on one thread.",
 [PROC, "include/maf/messaging/Processor.h", SIG],
 [("per-type handler signal", PROC), ("cleanup of unconnected handlers", PROC)],
 ["handler invocations with their argument and thread", "result of post and of the connected query"],
 [("handlers", "connected handlers by message type", PROC)])

prop("C05", "Named processors are unique, addressable, and announce their coming and going",
 "At any time at most one live (created and not stopped) processor has a given id: creating a second one yields nothing, look-up by id finds exactly the live one, and after it stops the id is free again; unnamed processors are never addressable. "
 "Every processor subscribed to status notifications receives exactly one 'reachable' notice for each named processor created later and one 'unreachable' notice for each that stops, in that order. "
 "Messages routed to an id or to everybody reach exactly the live processors with a handler for them, the result saying whether any took it, and the waitable forms complete when every recipient has processed the message.",
 ["histories", "schedules"],
 "For every history and interleaving of create, subscribe, stop and routed posts over several ids and threads, including two threads creating the same id at once.",
 "The tests create each id once from one thread.",
 ["src/common/maf/messaging/Router.cpp", "src/common/maf/messaging/Router.h", PROC, "include/maf/messaging/Routing.h"],
 [("set of live processors under one lock", "src/common/maf/messaging/Router.cpp"), ("status update broadcast", "src/common/maf/messaging/Router.cpp")],
 ["create/find results", "status notices received", "results of routed posts and sends"],
 [("live", "map from id to the processor holding it", "src/common/maf/messaging/Router.h")])

prop("C06", "Emitting a signal calls each connected slot once, even while slots change it",
 "Emitting a signal calls every slot that is connected when its turn comes exactly once, with the emitted arguments, in connection order; slots disconnected before their turn, and slots of expired tracked objects, are not called. "
 "Slots may connect, disconnect or reconnect slots of the same signal (themselves included) during the emission, and connection-aware slots may end their own connection, without a crash, a skipped or a repeated slot, and the change is fully effective for the next emission. "
 "The signal's own view (connected or not) agrees with which slots it would call.",
 ["programs", "histories"],
 "For every sequence of connect/disconnect/reconnect/emit operations on a signal and every placement of such operations inside running slots.",
 "The tests exercise one or two fixed mutation patterns; the order of operations and the slot in which they happen is what breaks list surgery during iteration.",
 [SIG], [("slot list with deferred removal", SIG), ("notifying flag", SIG)],
 ["slot calls with arguments", "connected queries on signal and connections"],
 [("slots", "connected slots in connection order", SIG)])

prop("C07", "A connection object says and decides whether its slot is called",
 "A connection reports connected exactly while its slot would be called; disconnecting is idempotent, reconnecting puts the slot at the end of the order, both also when the connection was moved, and a scoped connection (or group) ends its connections when it is destroyed. "
 "A connection outliving its signal reports disconnected and stays harmless, and so does an expired tracked object. "
 "A signal restricted to a single connection never calls two slots: a second connect is refused until the first is gone.",
 ["histories", "configurations"],
 "For every history of connection operations over all signal flavours (thread-safe or not, many or single connection) and connection holders, including destruction of the signal, of the tracked object or of the connection in any order.",
 "The tests check each holder once, in its intended order of destruction.",
 [SIG], [("weak reference from connection to signal", SIG), ("slot ownership handed back on disconnect", SIG)],
 ["connected queries", "slot calls after each operation"])

prop("C08", "Signals used from several threads neither lose, repeat nor deadlock calls",
 "With the thread-safe signal, concurrent emissions, connects and disconnects behave as if executed one after another: each emission calls each slot connected throughout it exactly once, and never a slot whose disconnect had returned before the emission began. "
 "Once a disconnect issued outside any slot returns, the slot is not running and is never called again. "
 "No interleaving deadlocks, crashes or touches a destroyed slot.",
 ["schedules"],
 "For every interleaving of emitting, connecting, disconnecting and reconnecting threads.",
 "The single concurrency test runs one stress loop and only counts.",
 [SIG, "include/maf/threading/AtomicObject.h"], [("one recursive lock per signal", SIG)],
 ["begin and end of slot calls", "begin and end of connection operations"])

prop("C09", "An observable tells its observers about every change and only about changes",
 "Setting an observable to a different value stores it and calls each connected observer once with the new value, in connection order; setting it to an equal value or using the silent forms calls nobody. "
 "An observer is called with the current value when it connects, and reading returns the last value stored. "
 "For observables with several parts observers of the whole and of single parts are called exactly when what they observe changed, and an in-place modification notifies once, at its end, if the value changed.",
 ["histories", "schedules"],
 "For every history of sets, silent sets, in-place modifications, connects and disconnects on single-part, multi-part and compound observables, and every interleaving of several setting threads.",
 "The tests make one pass through the operations; the one that mixes them does not pass.",
 [OBS], [("compare and notify in set", OBS), ("replay on connect", OBS)],
 ["observer calls with values", "values read"])

prop("C10", "Slots bound to an executor run there, and waiting emitters wait for all of them",
 "A slot connected through an executor runs only on that executor, once per emission, with the emitted arguments and in emission order, and the same holds for observers of observables, including the initial value given on connecting. "
 "A blocking executor makes the submitting call return only after the callback has finished, an asynchronous one never runs it inside the call, and work for a processor that no longer exists is reported as not executed instead of crashing. "
 "An emission passes its slots in order, waiting for those on blocking executors (which run at once when the emitter is on that processor's own thread) and for no others.",
 ["schedules", "configurations"],
 "For every executor kind, emitting thread (the processor's own or another) and interleaving.",
 "The tests emit from one foreign thread only.",
 [SIG, PROC, "include/maf/utils/ExecutorIF.h"], [("executor slots", SIG), ("processor executors", PROC)],
 ["thread on which slots run", "order of slot end and emission return"])

prop("C11", "Each request gets its own answer, exactly once, with progress updates before it",
 "For every client/server request the issuing client's callback receives the response or error the server gave to that very request - never one given to another request, operation or client - and exactly once, after the progress updates the server sent for it in the order sent. "
 "The server's handler for that operation is called once per request with the client's input; nothing is delivered after the final answer or after the client aborted the request, and an aborted request is reported to the server once. "
 "A server answering twice, or answering an aborted request, has no effect and does not crash.",
 ["schedules", "histories"],
 "For every number of outstanding requests, clients and operations, every order of response, update, abort, repeat response, and every interleaving of client and server threads.",
 "No client/server test runs at all in this build (they do not link); when they did they had one outstanding request at a time.",
 [REQ, PRV, "src/common/maf/messaging/client-server/Request.cpp", "include/maf/messaging/client-server/RequestT.h", "include/maf/messaging/client-server/BasicProxy.h", "include/maf/messaging/client-server/BasicStub.h"],
 [("request entries keyed by operation and request id", REQ), ("pending request table", PRV)],
 ["client callbacks", "server handler calls", "abort callbacks"],
 [("pending", "requests issued and not answered", REQ)])

prop("C12", "No request is left hanging",
 "A request is always concluded: by the server's answer, by an error when the operation has no handler or when the server drops the request without answering, or, when the service becomes unavailable, by releasing a blocking caller with an error; a request made while the service is unavailable is refused at once. "
 "A blocking request returns, in every interleaving, when its answer arrives, when the service goes away, or when its timeout expires, and a timed-out request is aborted. "
 "After the service comes back new requests work and answers to old ones are not delivered.",
 ["schedules", "fault_sequences", "histories"],
 "For every point at which the provider may stop, drop the request or fail to answer, relative to the request's issue and completion.",
 "Needs the service to disappear between issue and answer; no test does that.",
 [REQ, PRV, "include/maf/messaging/client-server/RequestT.h", CB, SB],
 [("clearing of requests on service loss", REQ), ("automatic answer when a request object is dropped", "include/maf/messaging/client-server/RequestT.h")],
 ["return of blocking requests and their result", "error callbacks"])

prop("C13", "Status subscribers see the current value and every change until they unsubscribe",
 "A client that subscribes to a status property is told its current value if there is one, and then every value the server sets that differs from the previous one, once and in order; setting an equal value tells nobody. "
 "Every registration of the same client gets the updates until it is unregistered, the last unregistration ends the server-side subscription, and a value removed by the server is no longer given to anybody. "
 "Reading the property, through a subscription's cached value or by asking the server, gives the last value set.",
 ["histories", "schedules"],
 "For every history of set/remove/subscribe/unsubscribe/read over several clients and registrations, including service restarts.",
 "The client/server tests do not run in this build, and checked one subscriber.",
 [REQ, PRV, "include/maf/messaging/client-server/BasicProxy.h", "include/maf/messaging/client-server/BasicStub.h"],
 [("property store and change test", PRV), ("client-side cache and registration list", REQ)],
 ["status callbacks with values", "results of get"],
 [("property", "last value set per operation", PRV), ("subscribers", "registered clients per operation", PRV)])

prop("C14", "A broadcast signal reaches exactly the subscribed clients",
 "Each signal the server broadcasts is delivered once, with its value and in order, to every registration of every client subscribed to it at that time, and to nobody else; there is no replay to later subscribers. "
 "Registrations of different operations are independent, and unregistering one of several registrations leaves the others working. "
 "Loss of one client does not keep the other clients from receiving.",
 ["histories", "fault_sequences"],
 "For every history of register/unregister/broadcast over several clients, operations and registrations, and every position of a dead client among the receivers.",
 "As C13; no test has two clients.",
 [REQ, PRV], [("per-operation client address lists", PRV)],
 ["signal callbacks"])

prop("C15", "Clients learn of a service's availability whatever the order of events",
 "Every client of a service, whether it was created before or after the service started, ends up seeing the service's actual availability, each observer is told once per change, and waiting for availability ends when the service is available. "
 "When the service becomes unavailable the client's subscriptions, cached values and pending requests are dropped, and nothing from before reappears when it comes back. "
 "Two providers or two requesters of the same service id in one process are the same one; a service cannot be taken over.",
 ["histories", "schedules"],
 "For every order of creating clients, starting, stopping and restarting providers and every interleaving of them.",
 "Tests start the server first and never stop it.",
 [CB, SB, REQ, "include/maf/messaging/client-server/ServiceStatusSignal.h", "src/common/maf/messaging/client-server/ClientFactory.cpp"],
 [("recorded service status per client", CB), ("status notification", SB)],
 ["service status callbacks and queries"])

prop("C16", "Processes sharing a service over local sockets are served independently",
 "Several clients connected to one server over local sockets are kept apart: each gets the answers to its own requests even when other clients use the same request numbers, an abort by one does not touch another's request, and each sees its own subscriptions only. "
 "A client that goes away, at any point, leaves the server serving the others. "
 "A client started before its server, or outliving it, sees the service become available and unavailable accordingly.",
 ["fault_sequences", "schedules", "histories"],
 "For every number of clients, interleaving of their traffic, and point at which a client or the server disappears.",
 "No test connects two clients, or any client, to the local-socket server.",
 ["src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp", "src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp", PRV, "include/maf/messaging/client-server/Address.h", "src/common/maf/messaging/client-server/Address.cpp"],
 [("source address in every message", "src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp"), ("address ordering", "src/common/maf/messaging/client-server/Address.cpp")],
 ["client callbacks", "service status seen by clients"])

prop("C17", "The socket transport delivers every buffer whole, once, or reports failure",
 "Each buffer for which sending reported success is delivered to the receiver exactly once with identical bytes, whatever its size and however the kernel splits reads and writes, and buffers of one sender arrive in order. "
 "A peer that closes early or sends a truncated buffer causes nothing to be delivered for it, and does not block, crash or corrupt the receiver. "
 "Sending where nobody listens reports failure, and a stopped receiver stops and can be started again.",
 ["inputs", "fault_sequences", "schedules"],
 "For every buffer size from empty to several system buffers, every split of the stream, every truncation point and every number of concurrent senders.",
 "The test sends one small buffer from one sender.",
 ["src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp", "src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h"],
 [("length prefix", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp"), ("read loop", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp")],
 ["bytes handed to the receiver's observer", "send results"])

prop("C18", "Timers fire at their time, as often as asked, and never after being stopped",
 "A timer started on a processor fires on that processor's thread, not before its interval has passed, as soon as the processor is free after that, once if one-shot and once per interval if cyclic; several timers fire in the order of their deadlines. "
 "A stopped timer does not fire, starting a running timer or restarting it counts from the restart, and running reports the truth. "
 "Timers may be started, stopped, restarted and destroyed inside timer callbacks without affecting other timers.",
 ["histories", "programs"],
 "For every history of start/stop/restart/change over several timers, with every placement of those calls inside callbacks and relative to elapsed time.",
 "The timer source does not compile at this commit, so nothing runs; the written tests wait in real time and check one timer pattern.",
 ["src/common/maf/messaging/Timer.cpp", "include/maf/messaging/Timer.h", "src/common/maf/messaging/SyncTimer.cpp", "include/maf/messaging/SignalTimer.h"],
 [("per-thread deadline heap", "src/common/maf/messaging/Timer.cpp"), ("bounded runs of the processor", PROC)],
 ["callback times, order and thread", "running query"],
 [("deadlines", "running timers with their expiry", "src/common/maf/messaging/Timer.cpp")])

prop("C19", "A thread pool runs every accepted task once and shuts down cleanly",
 "Every task given to a running thread pool is executed exactly once; a priority pool with one worker starts waiting tasks in priority order. "
 "Shutting down ends every worker, asks running tasks to stop, disposes of waiting ones without running them, and returns; tasks given after shutdown are not run. "
 "No interleaving of submissions, completions and shutdown loses a task, runs one twice or hangs.",
 ["schedules"],
 "For every pool kind, number of workers and interleaving of submitting threads, workers and shutdown.",
 "No test touches the thread pools.",
 ["include/maf/threading/ThreadPoolImplBase.h", "src/common/maf/threading/threadpool/DynThreadPool.cpp", "src/common/maf/threading/threadpool/StableThreadPool.cpp", "src/common/maf/threading/threadpool/PriorityThreadPool.cpp"],
 [("shared blocking queue and worker threads", "include/maf/threading/ThreadPoolImplBase.h")],
 ["task run/stop/done calls", "return of shutdown"])

prop("C20", "The blocking queue gives each item to one consumer and wakes every waiter",
 "Every item pushed while the queue is open is obtained by exactly one consumer, in push order (highest priority first for the priority queue), or remains or is cleared; nothing is obtained twice or out of nothing. "
 "A blocked consumer returns as soon as there is an item for it or the queue is closed, a timed one at its deadline at the latest; on a closed queue consumers return empty-handed and pushes are ignored until it is reopened. "
 "No interleaving of push, pop, close, clear and reopen loses a wake-up or crashes.",
 ["schedules"],
 "For every interleaving of producers, consumers, close, clear and reopen on FIFO and priority queues.",
 "No test uses the queue directly, and races of close with waiting need particular interleavings.",
 [TSQ], [("mutex, condition variable and closed flag", TSQ)],
 ["values obtained", "return of blocked calls"])

prop("C21", "Serialised data reads back equal, and truncated data is rejected",
 "Any supported value (numbers, strings, containers, tuples, optionals, smart pointers, annotated structures, nested) written to a byte stream reads back as an equal value, values written one after another read back in order, and the announced size is the number of bytes written. "
 "Reading from a truncated stream reports failure - it never reports success for a value whose bytes were not all there - and never reads outside the data. "
 "Messages between processes keep all of their fields through this encoding.",
 ["inputs"],
 "For every value of every supported shape, and every truncation point of its encoding.",
 "The tests write a few values of some types and never truncate.",
 ["include/maf/utils/serialization/Serializer.h", "include/maf/utils/serialization/IByteStream.h", "include/maf/utils/serialization/OByteStream.h", "src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp"],
 [("per-type size/write/read templates", "include/maf/utils/serialization/Serializer.h")],
 ["bytes written", "values and success read back"])

prop("C22", "Identifiers in use are never handed out twice",
 "An identifier manager never returns the same identifier twice, nor the reserved invalid one, from any number of threads. "
 "Endpoint addresses, registration ids and operation keys used to look clients up are compared consistently: exactly one of less, equal, greater holds for any two and less is transitive, so no entry stored under a key can be missed or shadowed. "
 "Equality of addresses agrees with equality of name and port.",
 ["schedules", "inputs"],
 "For every history of allocations and reclaims on any number of threads, and all pairs and triples of keys.",
 "No test compares keys or allocates concurrently.",
 ["include/maf/utils/IDManager.h", "src/common/maf/messaging/client-server/Address.cpp", "include/maf/messaging/client-server/RegID.h"],
 [("atomic counter skipping the invalid value", "include/maf/utils/IDManager.h"), ("key ordering", "src/common/maf/messaging/client-server/Address.cpp")],
 ["ids returned", "comparison results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
