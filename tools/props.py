D = "high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/"
H = "high_performance/modules/high_performance/include/klepsydra/high_performance/"
C = "core/modules/core/include/klepsydra/core/"
M = "core/modules/mem_mdlw/include/klepsydra/mem_core/"
S = "core/modules/socket_mdlw/"
SM = "state_machine/modules/state_machine/"
SER = "serialization/modules/serialization/include/klepsydra/serialization/"
Z = "core/modules/zmq_mdlw/include/klepsydra/zmq_core/"
PROPS = [
 dict(id="C01", title="A single-producer ring hands out each position once and never overruns readers",
  statement="On a ring with one producer, claims return consecutive positions, a blocking claim returns only when no consumer still needs the slot being reused, and a non-blocking claim succeeds exactly when it would not overrun the slowest consumer and otherwise reports that and claims nothing. Remaining capacity and capacity tests agree with this at every moment.",
  over=["inputs", "histories"], q="every ring position, claim size, consumer positions, and every sequence of ring operations",
  why="Unit tests start at position 0 with one small ring and a few fixed claims; wrapping, mixed claim sizes, cached consumer positions and 64-bit positions are never sampled.",
  files=[D+"single_producer_sequencer.h", D+"ring_buffer.h", D+"sequencer_traits.h", D+"utils/util.h"],
  mech=[("claim and wait for the slowest consumer", D+"single_producer_sequencer.h: next, try_next, has_available_capacity"), ("slowest consumer", D+"utils/util.h: get_minimum_sequence")]),
 dict(id="C02", title="A multi-producer ring hands out each position once and tracks publication",
  statement="On a ring shared by several producers, claims return consecutive disjoint positions and are refused exactly when they would overrun the slowest consumer, at any 64-bit position. A position is reported as available exactly when it has been published in its current round, in whatever order positions are published, and the highest readable position is the end of the contiguous published prefix.",
  over=["inputs", "histories"], q="every ring position, claim size, publication order and operation sequence",
  why="Tests publish a handful of positions from zero; stale flags of the previous round and positions beyond 32 bits are not reached.",
  files=[D+"multi_producer_sequencer.h", D+"ring_buffer.h"],
  mech=[("claim", D+"multi_producer_sequencer.h: next, try_next, has_available_capacity"), ("availability flags per round", D+"multi_producer_sequencer.h: set_available, is_available, get_highest_published_sequence")]),
 dict(id="C03", title="Concurrent producers and consumers lose, tear or reuse no event",
  statement="Whatever the interleaving of producers and consumers on a ring, two producers never own the same position, a consumer reads only fully written published events, in order, each with the contents its producer wrote, and a slot is not rewritten before every consumer, and every later pipeline stage, has released it. No memory access of the ring is a data race.",
  over=["schedules"], q="every interleaving of the threads' atomic and locking operations within the preemption bound, from any starting position",
  why="The threaded unit tests observe one schedule per run and cannot show the absence of a race or of a rare lost or torn event.",
  files=[D+"multi_producer_sequencer.h", D+"single_producer_sequencer.h", D+"sequence.h", D+"sequence_barrier.h", D+"ring_buffer.h"],
  mech=[("release/acquire publication", D+"sequence.h and "+D+"multi_producer_sequencer.h: publish, is_available"), ("compare-and-swap claim", D+"multi_producer_sequencer.h: next, try_next")]),
 dict(id="C04", title="Waiting consumers never see unpublished or unfinished events",
  statement="Under every wait strategy, waiting for a position returns only positions that have been published and finished by every upstream stage, at least the requested one on a single-producer ring; a raised alert ends the wait with an alert; and a timeout is reported only by strategies that have one and only after its time has passed.",
  over=["schedules", "inputs", "configurations"], q="every wait strategy, ring position and interleaving of waiter, producer, upstream stage and alert",
  why="Tests cover one strategy with sleeps between steps; the racy windows between check and wait are not exercised.",
  files=[D+"wait_strategies/"+f for f in ["blocking_wait_strategy.h","busy_spin_wait_strategy.h","lite_blocking_wait_strategy.h","phased_backoff_wait_strategy.h","sleeping_wait_strategy.h","timeout_blocking_wait_strategy.h","yielding_wait_strategy.h"]]+[D+"sequence_barrier.h", D+"fixed_sequence_group.h"],
  mech=[("wait loops", D+"wait_strategies/*.h: wait_for"), ("alert and contiguous-prefix check", D+"sequence_barrier.h: wait_for, check_alert")]),
 dict(id="C05", title="No wait strategy loses a wake-up or an alert",
  statement="A consumer waiting for a position that is or becomes published and finished upstream always returns, and so does one on which an alert is raised, whatever the order in which the publisher and the waiter take their steps. One publication or alert wakes all consumers waiting for it, without the help of a timeout.",
  over=["schedules"], q="every interleaving of one or two waiters with a producer, an upstream stage or an alerting thread",
  why="A lost wake-up needs one particular interleaving; a test that does not hang proves nothing about the others.",
  files=[D+"wait_strategies/blocking_wait_strategy.h", D+"wait_strategies/lite_blocking_wait_strategy.h", D+"wait_strategies/timeout_blocking_wait_strategy.h", D+"sequence_barrier.h"],
  mech=[("condition variable and signalling", D+"wait_strategies/*.h: wait_for, signal_all_when_blocking"), ("alert", D+"sequence_barrier.h: alert, clear_alert")]),
 dict(id="C06", title="The batch processor delivers every event once, in order, through any failure",
  statement="A running event processor passes every published event to its handler exactly once, in order, with its position and an end-of-batch mark exactly on the last event of a batch, and releases a position only after handling it. Handler exceptions, timeouts and spurious alerts are reported to the matching callback and neither stop it nor skip or repeat an event; start and shutdown are announced exactly once.",
  over=["histories", "fault_sequences", "schedules"], q="every sequence of batches, timeouts, alerts and handler exceptions, and interleavings with producers",
  why="Tests run one or two batches with at most one exception in a fixed place.",
  files=[D+"batch_event_processor.h", D+"event_handler.h"],
  mech=[("processing loop", D+"batch_event_processor.h: run")]),
 dict(id="C07", title="Halting an event processor always stops it",
  statement="Once an event processor reports that it is running, asking it to halt from any thread at any moment, including from its own handler, makes its run return; it then reports that it is stopped and can be run again from the next unhandled event.",
  over=["schedules"], q="every interleaving of the halting thread with the processor's start, wait and handling steps",
  why="Tests halt a processor that has long been idle; the windows during start-up and between checking and waiting are not sampled.",
  files=[D+"batch_event_processor.h", D+"no_op_event_processor.h", D+"sequence_barrier.h"],
  mech=[("halt", D+"batch_event_processor.h: halt, run"), ("halt of the no-op processor", D+"no_op_event_processor.h: halt, run")]),
 dict(id="C09", title="The lock-free stack hands out each element once, under any interleaving",
  statement="A bounded lock-free stack starts full, with every element initialised once. Used by one thread it is last-in first-out: a push succeeds exactly when there is room and leaves a refused element with the caller, a pop succeeds exactly when an element is left. Under any interleaving of any number of threads no element is lost, duplicated, handed to two holders or torn, and an element taken out can always be put back.",
  over=["schedules", "histories"], q="every history of pushes and pops and every interleaving of the threads' atomic steps within the preemption bound, reuse of a node between a thread's read and its exchange included",
  why="The tests run a few pushes and pops on one thread and one racing schedule; the reuse (ABA) windows are never hit on purpose.",
  files=[C+"lock_free_stack.h"], mech=[("tagged head and compare-exchange", C+"lock_free_stack.h: _pop, _push"), ("two lists over one buffer", C+"lock_free_stack.h: push, pop")]),
 dict(id="C10", title="A pooled object has one holder and always comes back",
  statement="An object pool creates and initialises exactly its size in objects, hands each to at most one holder at a time, fails an acquisition exactly when every object is held and counts every such failure, takes every released object back for reuse, finalises the objects it holds when it ends, and leaves an object still held then alive until its holder releases it; every object is destroyed exactly once, from any number of threads.",
  over=["schedules", "histories"], q="every history of acquisitions and releases, in either order of destruction, and every interleaving of the holders' threads within the preemption bound",
  why="The tests use one thread and fixed orders of acquisition and release.",
  files=[C+"smart_object_pool.h", C+"lock_free_stack.h"], mech=[("returning deleter", C+"smart_object_pool.h: ReturnToPool_Deleter"), ("acquire and failure count", C+"smart_object_pool.h: acquire")]),
 dict(id="C11", title="A blocking queue is a bounded first-in first-out queue under every operation",
  statement="Used by one thread, a queue holds what was pushed and not yet taken, in order. Non-blocking pushes succeed exactly when the limit (0 means none) leaves room, forced pushes discard the oldest items until the new one fits and report how many, non-blocking and timed takes succeed exactly when there is an item, a failed take leaves its argument alone and a timed one waits its whole timeout and no longer. Size, empty and full agree with the contents. Swapping exchanges and assigning copies the contents; a copied or moved queue has the contents and the limit of its source; items are released when they leave.",
  over=["inputs", "histories"], q="every 32-bit limit, every starting content of up to two items and every sequence of operations of every kind",
  why="The tests use a few fixed sequences with one limit; unlimited queues, changed limits, forced pushes at the edge and copies are not combined.",
  files=[M+"safe_queue.h"], mech=[("pushes and takes", M+"safe_queue.h: push .. timeout_move_pop"), ("copies", M+"safe_queue.h: swap, operator=, constructors")]),
 dict(id="C12", title="A blocking queue shared by threads loses no item and wakes everyone it should",
  statement="Under any interleaving of producers and consumers, with spurious wake-ups and expiring timeouts, every item pushed is taken exactly once or is discarded and counted by a forced push, and the items of one producer arrive in order at a consumer. Nobody stays blocked when it could go on: a waiting consumer whenever an item is there, a blocked producer whenever there is room, also when the room or the item comes from a changed limit, a swap or an assignment; two queues can be swapped or assigned in both directions at once.",
  over=["schedules"], q="every interleaving of up to three threads' locking operations within the preemption bound, with up to two spurious wake-ups and early timeouts",
  why="A lost wake-up, a stolen item or a lock-order deadlock needs one particular interleaving, which a test meets only by luck.",
  files=[M+"safe_queue.h"], mech=[("condition variables", M+"safe_queue.h: m_non_empty_condition, m_non_full_condition"), ("locking of two queues", M+"safe_queue.h: swap, operator=")]),
 dict(id="C13", title="A state machine follows its specification for every event sequence",
  statement="A machine built from a specification starts in its first state and, while started, an update handles queued events in order up to and including the first that triggers a transition: the first transition of the current state whose event name is equal to the event. Events that match nothing are dropped, events sent while stopped are ignored, pending events survive a stop, a reset returns to the first state and stops. On every start and every update in a known state each registered observer is told exactly once the machine's and the resulting state's name and whether the state changed, and nobody is told anything otherwise; observers may register, unregister or send events while being told.",
  over=["inputs", "histories", "configurations"], q="every specification of a few states and transitions with arbitrary event names and destinations, and every sequence of operations and events",
  why="The tests walk one fixed three-state machine through fixed event sequences.",
  files=[SM+"src/state_machine_impl.cpp", SM+"src/sm_factory_impl.cpp", SM+"src/transition_impl.cpp", SM+"src/state_impl.cpp"],
  mech=[("event queue and transition", SM+"src/state_machine_impl.cpp: update"), ("construction", SM+"src/sm_factory_impl.cpp")]),
 dict(id="C14", title="State actions run exactly when their state is entered or updated",
  statement="A listener attached to a machine runs, on every notification of a state of that machine: the one-off actions of the state once, at the next entry after they were added, and never again, however that entry is triggered; its plain actions at every entry; its periodic actions at every notification until they are removed. Actions of other states and of other machines do not run. Actions are told the full state name and may add or remove actions or trigger further updates.",
  over=["histories", "inputs"], q="every sequence of added and removed actions of every kind and of notifications, nested ones included",
  why="The tests attach one action of a kind and never act from inside an action.",
  files=[SM+"src/state_machine_listener.cpp"],
  mech=[("dispatch", SM+"src/state_machine_listener.cpp: updateCurrentState"), ("names", SM+"src/state_machine_listener.cpp: getCompleteName")]),
 dict(id="C15", title="Socket transfers deliver every byte once, in order, whatever the kernel answers",
  statement="Sending data on a data socket delivers exactly the given bytes in order, once, through partial writes and temporary failures (EINTR, EAGAIN), or ends with an exception, after which nothing more is sent. Receiving fills the buffer and never exceeds it, in order and with nothing lost, and returns early only at the end of the stream, on a lost connection (which counts as the end) or when the caller's end test accepts what was read so far; other failures raise an exception. The simple protocol sends a whole message and then marks its end once, and receives a whole message of any size whatever the chunks it arrives in.",
  over=["inputs", "fault_sequences"], q="every message content, every split into partial transfers, and every failure the kernel may report at any point",
  why="The sockets have no unit tests at all; partial transfers, interruptions and resets do not occur on a local connection.",
  files=[S+"src/data_socket.cpp", S+"include/klepsydra/socket_core/data_socket.tpp", S+"src/protocol_simple.cpp", S+"include/klepsydra/socket_core/string_resizer.h"],
  mech=[("write loop", S+"src/data_socket.cpp: putMessageData"), ("read loop", S+"include/klepsydra/socket_core/data_socket.tpp: getMessageData"), ("growing message", S+"src/protocol_simple.cpp: recvMessage")]),
 dict(id="C16", title="Every socket descriptor has one owner and is closed exactly once",
  statement="A descriptor opened for a socket object is owned by one object at a time, follows moves and swaps, stays open as long as it has an owner, and is closed exactly once: by an explicit close, by the destruction of its owner, or when connecting, binding or listening fails, in which case constructing the socket fails. Closing a closed or moved-from socket is reported as an error and touches no descriptor. A connection goes to exactly the host and port or path given; a server listens on exactly the port or path given, and its accept waits at most its timeout and returns a connection that outlives the server, or fails.",
  over=["histories", "fault_sequences", "inputs"], q="every history of moves, swaps, closes and destructions, and every outcome of each system call",
  why="No unit test covers the sockets; a leaked or doubly closed descriptor stays unnoticed until it hits an unrelated file.",
  files=[S+"src/base_socket.cpp", S+"src/connect_socket.cpp", S+"src/server_socket.cpp"],
  mech=[("ownership", S+"src/base_socket.cpp: close, swap, move"), ("set-up and its failures", S+"src/connect_socket.cpp, "+S+"src/server_socket.cpp")]), dict(id="C17", title="Binary and identity mappers carry an event across unchanged",
  statement="Converting an event of a trivially copyable type to a binary message yields exactly the event's bytes, whatever the message held before, and converting it back restores the event byte for byte. A binary message at least as long as the event is accepted and yields an event made of its first bytes; a shorter one is rejected with an exception without reading past its end and without changing the event. An identity mapper makes an equal and independent copy in either direction. Neither mapper changes its source.",
  over=["inputs"], q="every content of the events, every message of every length up to twice the event's, and every previous content of the destination",
  why="The tests convert one fixed event in one direction and back.",
  files=[SER+"void_caster_mapper.h", SER+"identity_mapper.h"], mech=[("binary conversion", SER+"void_caster_mapper.h: fromMiddleware, toMiddleware"), ("copy", SER+"identity_mapper.h")]), dict(id="C18", title="The unsafe multi-listener emitter calls exactly the registered listeners",
  statement="Used by one thread, an emission calls each listener registered for its subscriber name once, in the order of registration, with the emitted event itself, and no other listener. Adding a listener under a name that is in use changes nothing and yields the id of the first; different registered listeners have different ids. Removing a listener by id, or all of them, ends their calls, lets go of what they hold, and does nothing else; unknown ids are ignored. A listener added for a container has its statistics attached to it exactly while it is registered; they count its calls, its discarded events and the time events waited, and can be looked up by its id, while all other ids have none. Single execution listeners are refused.",
  over=["histories", "inputs"], q="every sequence of additions, removals, emissions and discards within the bound, with every event and time",
  why="The tests (not even built here) follow a few fixed sequences; id reuse, repeated names and removals in between are not combined.",
  files=[C+"unsafe_multi_listener_event_emitter.h"], mech=[("registration", C+"unsafe_multi_listener_event_emitter.h: on, removeListener, removeAllListeners"), ("emission", C+"unsafe_multi_listener_event_emitter.h: emitEvent, discardEvent")]),
 dict(id="C19", title="The unsafe single-listener emitter calls its one listener and no other",
  statement="Used by one thread, the emitter keeps the first listener that is added, and what it holds, until it is removed by id 0 or with all listeners; adding another one in between changes nothing. An emission calls the listener once with the emitted event itself when the emission's subscriber name is the listener's, and does nothing otherwise. A listener added for a container has its statistics attached exactly while it is registered; they count its calls, the events discarded for its subscriber and the time events waited. Other ids have no statistics and single execution listeners are refused.",
  over=["histories", "inputs"], q="every sequence of additions, removals, emissions and discards within the bound, with every id, event and time",
  why="The tests (not even built here) follow one fixed sequence.",
  files=[C+"unsafe_single_listener_event_emitter.h"], mech=[("registration", C+"unsafe_single_listener_event_emitter.h: on, removeListener"), ("emission", C+"unsafe_single_listener_event_emitter.h: emitEvent, discardEvent")]),
 dict(id="C20", title="The safe emitter calls the right listeners, from any thread or inside a call",
  statement="An emission calls every listener registered for its subscriber name for as long as the emission lasts once, in the order of registration, with the emitted event itself, and no listener more than once; a listener added while it lasts is not called by it, and a listener whose removal came before it began is not called. A single execution listener runs exactly once, for the first emission that reaches it, however many emissions run at the same time or inside each other. Listeners may add, remove (themselves too) and emit from inside their call. Removing an id that is not registered is refused with an exception; a removed listener is let go of with all it holds once no emission uses it. The statistics of a listener (other than single execution ones) count its calls, discarded events and waiting time, and are attached to its container exactly while it is registered. Any operations may run in different threads at the same time without a data race or a deadlock.",
  over=["histories", "schedules", "inputs"], q="every sequence of operations within the bound, every action a listener takes inside its call, and every interleaving of two threads within the preemption bound",
  why="The tests (not even built here) use one thread and remove one listener from inside a call; two emissions at the same time need one particular interleaving.",
  files=[C+"safe_event_emitter.h"], mech=[("snapshot of the listeners", C+"safe_event_emitter.h: emitEvent"), ("registration under the lock", C+"safe_event_emitter.h: addListener, removeListener")]), dict(id="C21", title="Events published in memory reach the subscriber's listeners intact",
  statement="Every publication by value, by shared pointer or by a processing function calls each registered listener of the topic once, with an event that equals the published one (copied, or initialised and cloned by the given functions; by shared pointer the very same event), and leaves the publisher's own event alone. An event that anyone still holds is never reused or changed, even after the publisher is gone, and every event is destroyed once. A publisher allocates an event exactly when no event of its pool is free, and counts it. Listeners are registered, looked up and removed by name, independently of each other; unknown names have no statistics and removing them does nothing; empty listeners are refused. Publisher and listener statistics are attached to the container exactly while they live. Transformers and forwarders publish each event they get once.",
  over=["histories", "inputs", "configurations", "schedules"], q="every sequence of publications, held events, registrations and removals within the bound, every pool size up to 2, every combination of initialiser, cloner and emitter, and every interleaving of two publishing threads within the preemption bound",
  why="The tests (not even built here) publish through one listener that never keeps an event back while another is published.",
  files=[C+"object_pool_publisher.h", C+"event_emitter_publisher.h", C+"event_emitter_subscriber.h", C+"event_emitter_middleware_provider.h", C+"event_forwarder.h"], mech=[("event creation", C+"object_pool_publisher.h: _eventCreatorWrapper, _processEventCreatorWrapper"), ("registration by name", C+"event_emitter_subscriber.h: registerListener, removeListener")]),
 dict(id="C22", title="Every request gets its reply's callback, once",
  statement="A request sent through a callback handler is published exactly once, and is already waiting for its reply by then. A reply that arrives runs exactly one callback, once, with that very reply: the one of the first issued request still waiting that the correlation function matches with it; that request waits no longer and its callback is let go of. A reply that matches nothing runs nothing. This also holds for replies that arrive while the request is being published, and for callbacks that themselves send requests or receive replies. The handler listens to the replies under its own name for as long as it lives. With the handler used by several threads no request or reply is lost or answered twice, nothing races and nobody stays blocked.",
  over=["histories", "schedules", "inputs"], q="every sequence of requests and replies with every content, every action of a callback, and every interleaving of two threads within the preemption bound",
  why="The tests (not even built here) send requests one after another and reply in order, never from inside a callback or from another thread.",
  files=[C+"callback_handler.h"], mech=[("waiting requests and matching", C+"callback_handler.h: send, onResponseReceived")]),
 dict(id="C23", title="Cache listeners hold the last event they received",
  statement="A cache listener holds nothing before its first event and afterwards the last event it was given: its own copy of it, or the very event when it is given by pointer. It counts every event. An event taken from the cache never changes afterwards and lives on after newer events and after the listener. With events arriving from one thread while others read, a reader gets a complete event that arrived, never an older one than before, and nothing races.",
  over=["histories", "schedules", "inputs"], q="every sequence of events and reads with every content, and every interleaving of a writer and a reader within the preemption bound",
  why="The tests (not even built here) only compare the last event after everything has been sent.",
  files=[C+"cache_listener.h"], mech=[("the held event", C+"cache_listener.h: cacheListenerFunction, getLastReceivedEvent")]),
 dict(id="C24", title="A container starts and stops exactly what is attached to it",
  statement="A service, publisher or subscriber statistic, scheduler statistic or managed object attached to a container is part of it from then until it is itself detached, also when others carry the same name. Starting and stopping the container starts and stops everything attached, once, and nothing else; something attached while the container runs is started right away. Null pointers are ignored. What is detached is never touched again. Threads may attach and detach at the same time without losing anything and without a race.",
  over=["histories", "schedules", "inputs"], q="every sequence of attaching, detaching, starting and stopping within the bound, with equal and different names, and every interleaving of two threads within the preemption bound",
  why="The tests (not even built here) attach one thing of a kind, and never two of the same name or from two threads.",
  files=[C+"core_container.h", "core/modules/core/src/core_container.cpp"], mech=[("lists and their locks", "core/modules/core/src/core_container.cpp: attach*, detach*, start, stop")]),
 dict(id="C25", title="Environments return the value last set for a type, name and root node",
  statement="In the configuration environment and in the memory environment a property is identified by its type and its path, which is the name below a root node. Reading it returns the value last set; a property that was never set is reported as missing and the default is returned. Loading a file adds the properties of every type under the root node, keeps the values that exist already and reports that; a missing or unreadable file is reported and changes nothing. Updating replaces each type that the file contains. An exported environment reads back equal. Property collections set, overwrite, find and copy below a prefix, and a dynamic property of another type is refused. The memory environment may be used from several threads without a race.",
  over=["histories", "inputs", "schedules", "configurations"], q="every sequence of writes and reads of every type within the bound, with every value and equal and different names and root nodes, and every interleaving of two threads within the preemption bound",
  why="The tests (not even built here) set each property once, under one root node, and read it back.",
  files=[C+"configuration_environment.h", C+"configuration_properties.h", C+"property.h", M+"mem_env.h", "core/modules/mem_mdlw/src/mem_env.cpp", "core/modules/core/src/configuration_environment.cpp"],
  mech=[("collections", C+"configuration_properties.h"), ("paths and loading", "core/modules/core/src/configuration_environment.cpp"), ("maps", "core/modules/mem_mdlw/src/mem_env.cpp")]),
 dict(id="C26", title="Property files are read as they are written",
  statement="In a property file everything from a semicolon on is a comment and empty lines are skipped; each other line is a name, an equals sign and a value, with the blanks around both ignored. A value reads as the text written, inner blanks included, as an integer in decimal or in 0x hexadecimal notation, or as a truth value. A property that is missing is reported, and the default is returned. A line without a name or an equals sign, a name that occurs twice, a value of the wrong type and a file that does not exist are refused.",
  over=["inputs"], q="every text of up to five arbitrary characters, pairs of properties with arbitrary names and additions, and every short value",
  why="The tests (not even built here) read one well-formed file.",
  files=[C+"config_file.h", C+"prop_file_convert.h", C+"prop_file_environment.h", "core/modules/core/src/prop_file_environment.cpp"],
  mech=[("lines", C+"config_file.h: parseLine, validLine"), ("values", C+"prop_file_convert.h"), ("missing values", "core/modules/core/src/prop_file_environment.cpp")]),
 dict(id="C27", title="In-memory middleware delivers every event once, in order, from its own thread",
  statement="An event published through the in-memory middleware, over the locking or the concurrent queue, reaches each listener of the provider once, unchanged, from the provider's own thread and in the order in which one publisher published it; events published before the start or after a stop wait for the next start. With discarding, the oldest waiting events make room for a new one when the queue is full and are counted; without, a publisher waits until there is room, and nothing is lost. Once an event has been delivered or dropped, nothing of it is kept. This holds for several publishing threads over the locking queue and for events forwarded to another provider, and nothing races.",
  over=["schedules", "histories", "inputs", "configurations"], q="every interleaving of the publishing threads and the polling thread within the preemption bound, every event, queue limits of 1 and 2, every pool size up to 1, and starts and stops in between",
  why="The tests (not even built here) publish slowly, so that the queue is hardly ever full and the threads hardly ever meet.",
  files=[M+"basic_middleware_provider.h", M+"basic_publisher.h", M+"safe_queue_poller.h", M+"safe_queue.h", M+"concurrent_middleware_provider.h", M+"concurrent_queue_publisher.h", M+"concurrent_queue_poller.h", M+"in_memory_middleware_provider.h"],
  mech=[("putting into the queue", M+"basic_publisher.h, "+M+"concurrent_queue_publisher.h: internalPublish"), ("taking from it", M+"safe_queue_poller.h, "+M+"concurrent_queue_poller.h: takeEventFromQueue")]),
 dict(id="C28", title="In-memory middleware starts, stops, restarts and ends cleanly",
  statement="A poller or provider of the in-memory middleware runs once its start has returned, which fails with an exception when the thread does not come up in time, until it is stopped. A stop returns once the polling thread has ended, also when that thread comes up late; nothing is delivered after it, and it can be started again. Starting what runs and stopping what does not changes nothing. Destroying a provider that runs stops it first, without anything that it uses being touched after its end.",
  over=["schedules", "histories", "configurations"], q="every sequence of starts and stops within the bound, every interleaving with the polling thread within the preemption bound, threads that come up late included",
  why="The tests (not even built here) start and stop each provider once, with the thread up at once.",
  files=["core/modules/mem_mdlw/src/in_memory_queue_poller.cpp", M+"in_memory_queue_poller.h", M+"in_memory_middleware_provider.h"],
  mech=[("thread and flags", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp: start, stop, pollingLoop")]),
 dict(id="C29", title="The scheduler runs each task when due, and not once its stop has returned",
  statement="A task that is scheduled once runs once, not before its time has passed; a repeating one runs again and again, its runs starting at least its period apart, until it is stopped. A stop waits for a run that is going on, and afterwards the task does not run any more; other tasks are not affected. Scheduling a task under a name in use replaces the old task, which does not run any more, and so does the end of the scheduler. A scheduled service is executed like a task, as long as it is started. Nothing races.",
  over=["schedules", "histories", "configurations"], q="every sequence of starts, stops and waits within the bound, once or repeating, at once or delayed, and every interleaving with the tasks' threads within the preemption bound",
  why="The tests (not even built here) schedule one task at a time and stop it after a long while.",
  files=["core/modules/mem_mdlw/src/basic_scheduler.cpp", M+"basic_scheduler.h"],
  mech=[("tasks", "core/modules/mem_mdlw/src/basic_scheduler.cpp: ScheduledThread::start, stop"), ("names", "core/modules/mem_mdlw/src/basic_scheduler.cpp: startScheduledTask, stopScheduledTask")]),
 dict(id="C32", title="An event loop delivers each event once, in order, on its own thread",
  statement="An event published to a running event loop, copied, shared or filled in place, with a pool or without, by one or several threads, reaches each listener of its topic once, unchanged, on the thread of the loop and in the order in which one publisher published it; listeners of other topics do not get it. When the buffer is full, the event is dropped and counted as discarded, and events are dropped only then. Once an event has been handled or dropped, the loop keeps nothing of it. The provider has one publisher and one subscriber for each topic, and they and their listeners are detached from the container when they end.",
  over=["schedules", "histories", "inputs", "configurations"], q="every interleaving of the publishing threads and the thread of the loop within the preemption bound, every event, up to two topics and two publishing threads, and a stop and another start in between",
  why="The tests (not even built here) publish slowly from one thread to a loop that is hardly ever busy.",
  files=[H+"event_loop_publisher.h", H+"event_loop_subscriber.h", H+"event_loop_event_handler.h", H+"event_loop_middleware_provider.h", H+"event_loop.h", C+"object_pool_publisher.h"],
  mech=[("putting into the buffer", H+"event_loop_publisher.h: internalPublish"), ("taking from it", H+"event_loop_event_handler.h: on_event"), ("topics", H+"event_loop_middleware_provider.h, "+H+"event_loop_subscriber.h")]),
 dict(id="C33", title="An event loop starts, stops, restarts and ends cleanly",
  statement="An event loop runs once its start has returned, which fails with an exception when the thread does not come up in time, until it is stopped. A stop returns once the listeners have returned and the thread of the loop has ended, also when that thread comes up late; nothing is delivered after it, and the loop can be started again and then delivers what is published from then on. Starting what runs and stopping what does not changes nothing. Destroying a provider whose loop runs stops it first, without anything that the loop uses being touched after its end.",
  over=["schedules", "histories", "configurations"], q="every sequence of starts, stops and publications within the bound, every interleaving with the thread of the loop within the preemption bound, threads that come up late and events that are pending included",
  why="The tests (not even built here) start and stop a loop at most twice, with its thread up at once and nothing pending.",
  files=[H+"event_loop.h", H+"event_loop_middleware_provider.h", D+"batch_event_processor.h"],
  mech=[("thread and flags", H+"event_loop.h: start, stop, destructor"), ("order of ends", H+"event_loop_middleware_provider.h: destructor and members")]),
 dict(id="C34", title="Tasks scheduled on an event loop run on its thread, when due",
  statement="A task scheduled on an event loop runs on the thread of the loop, like its listeners: once, not before its time has passed, or again and again when it repeats, until it is stopped. After the stop at most what was handed to the loop before still runs, and nothing runs once the loop has stopped or ended. A scheduled service is executed like a task, as long as it is started. An event loop has one scheduler.",
  over=["schedules", "configurations"], q="every interleaving of the scheduling thread, the thread of the loop and the publishing thread within the bound on deviations from taking turns, tasks and services, once or repeating, at once or delayed",
  why="The tests (not even built here) schedule one task at a time, wait for long and do not look at the thread it runs on.",
  files=["high_performance/modules/high_performance/src/event_loop_scheduler.cpp", H+"event_loop_scheduler.h", H+"event_loop_function_exec_listener.h", H+"event_loop_middleware_provider.h"],
  mech=[("handing over", "high_performance/modules/high_performance/src/event_loop_scheduler.cpp: startScheduledTask"), ("running", H+"event_loop_function_exec_listener.h")]),
 dict(id="C35", title="Multiplexer subscribers get the newest event, intact and in order",
  statement="Each subscriber of a data multiplexer, on its own thread, gets published events intact, in the order of their publication and none of them twice; when newer events are there, it goes straight to the newest one and the skipped ones are counted as discarded in its statistics; it always gets the newest one. An event stays as it is while a listener uses it, however it is published. When a subscriber is so far behind that the buffer is full, new events are dropped and counted as discarded by the publisher, and only then. Every event of the buffer is initialised once.",
  over=["schedules", "inputs", "configurations"], q="every interleaving of the publisher and one or two subscribers within the preemption bound, every event, copied, cloned, shared or filled in place",
  why="The tests (not even built here) publish with pauses and look at a few counters.",
  files=[H+"data_multiplexer_publisher.h", H+"data_multiplexer_subscriber.h", H+"data_multiplexer_event_handler.h", H+"data_multiplexer_middleware_provider.h", H+"data_multiplexer_event_data.h"],
  mech=[("putting into the buffer", H+"data_multiplexer_publisher.h"), ("taking from it", H+"data_multiplexer_event_handler.h: on_event"), ("gating", H+"data_multiplexer_subscriber.h: constructor")]),
 dict(id="C36", title="Multiplexer subscribers come and go without harm to the publisher",
  statement="A subscriber of a data multiplexer runs once it has been created; when its thread does not come up in time, its creation fails with an exception and leaves nothing behind. When a subscriber ends, its thread ends first, and no listener of it runs any more. A subscriber that has ended neither holds the publisher back nor is touched by it, and one that is created later gets what is published from then on.",
  over=["schedules", "histories"], q="every interleaving of the publisher and the threads of two subscribers within the preemption bound, a late thread and pending events included",
  why="The tests (not even built here) end the subscribers together with the publisher and have their threads up at once.",
  files=[H+"data_multiplexer_subscriber.h", D+"single_producer_sequencer.h", D+"batch_event_processor.h"],
  mech=[("thread and gating sequence", H+"data_multiplexer_subscriber.h: constructor, destructor")]),
 dict(id="C30", title="Channels to and from a middleware carry each event once, mapped",
  statement="An event published into a channel to a middleware, copied, shared or filled in place, becomes exactly one message, made from that event by the mapper, also when several threads publish; a message that arrives at a channel from a middleware becomes exactly one event, made from that message, at the channel's publisher. So an event sent through both arrives once and unchanged. A forwarder passes each event it gets on once and unchanged.",
  over=["inputs", "schedules", "configurations"], q="every event, every way of publishing, pools of up to two objects, and every interleaving of two publishing threads within the preemption bound",
  why="No test of the repository covers these classes directly.",
  files=[C+"to_middleware_channel.h", C+"from_middleware_channel.h", C+"event_forwarder.h", C+"event_emitter_middleware_provider.h", C+"event_emitter_publisher.h"],
  mech=[("to the middleware", C+"to_middleware_channel.h: internalPublish, processAndPublish"), ("from the middleware", C+"from_middleware_channel.h: onMiddlewareMessage")]),
 dict(id="C31", title="Managed services start and stop with the system events",
  statement="A managed service starts up with a start event and shuts down with a stop event of its system event subscriber, independently of other managed services; other system events do not change it. Without a subscriber it is left to its owner.",
  over=["histories", "inputs"], q="every sequence of four system events of any value",
  why="No test of the repository covers this class.",
  files=[C+"manage_service.h", C+"system_event.h"],
  mech=[("events", C+"manage_service.h: onSystemMessageReceived")]),
 dict(id="C37", title="Events travel over ZMQ topics once, intact and only to their topic",
  statement="An event published into a binary, JSON or plain bytes channel to ZMQ, copied, shared or filled in place, with or without a pool, becomes exactly one message of two frames: the topic, and exactly the bytes that the mapper made from that event, whatever was sent before. Asking for the channel of a topic again gives the same channel. A running channel from ZMQ hands every message of a registered topic, once, unchanged and in order, to the publisher registered for exactly that topic, and ignores messages of other topics, also those that share a prefix. A topic can be registered and unregistered at any time, again and again; nothing is delivered for it after it was unregistered, and other topics go on.",
  over=["inputs", "histories", "schedules", "configurations"], q="every content of up to three bytes, every kind of channel, pool, way of publishing and topic, every sequence of three registrations, unregistrations and events, and every interleaving of a delivery with an unregistration within the preemption bound",
  why="The tests (not even built here, there is no cppzmq) send events of one topic and of one size through fresh channels.",
  files=[Z+"to_zmq_middleware_provider.h", Z+"from_zmq_middleware_provider.h", Z+"binary_to_zmq_channel.h", Z+"json_to_zmq_channel.h", Z+"void_caster_to_zmq_channel.h", Z+"binary_zmq_poller.h", Z+"json_zmq_poller.h", Z+"void_caster_zmq_poller.h", Z+"zmq_poller.h", C+"object_pool_publisher.h"],
  mech=[("sending", Z+"*_to_zmq_channel.h: internalPublish"), ("dispatch", Z+"zmq_poller.h: registerToTopic, unregisterFromTopic, executeFunction"), ("receiving", Z+"*_zmq_poller.h: poll")]),
 dict(id="C38", title="A ZMQ channel's poller starts, stops, restarts and ends cleanly",
  statement="A poller of a channel from ZMQ runs from its start to its stop; a start whose thread does not come up in time fails with an exception and can be stopped, and the poller started again. Starting a running poller or stopping a stopped one changes nothing. Stopping waits until the delivery in progress is over, and nothing is delivered from then until the next start, after which messages arrive again. A channel may be destroyed while it runs: its thread ends first.",
  over=["schedules", "histories"], q="every sequence of three starts, stops and events and every interleaving within the preemption bound, a late thread included",
  why="The tests (not even built here) start each channel once, with its thread up in time, and stop it before it ends.",
  files=[Z+"zmq_poller.h", Z+"from_zmq_middleware_provider.h", Z+"json_zmq_poller.h"],
  mech=[("thread", Z+"zmq_poller.h: start, stop, pollingLoop"), ("end", Z+"from_zmq_middleware_provider.h: FromZmqChannel")]),
 dict(id="C39", title="Environments with one ZMQ key share their settings",
  statement="What an application sets in a ZMQ environment, a property of any type below any root node, or loads into it from a file, can be read from it at once and reaches every other running environment that has the same key and topic, also one that was created at the same moment; the properties it did not set keep their values there. An environment with another key gets nothing, and an environment is not changed by what it sent itself. Reading and setting properties while an update arrives is free of races. When an environment ends, its thread ends first, and a configuration environment it was given stays.",
  over=["inputs", "histories", "schedules", "configurations"], q="every pair of settings by either of two environments, of every type with every value, threads in turn, and every interleaving of a reader with an update, and of two environments with other keys, within the preemption bound",
  why="The tests (not even built here) create the environments at different times, wait long enough, and never read while an update arrives.",
  files=[Z+"zmq_env.h", "core/modules/zmq_mdlw/src/zmq_env.cpp", Z+"zmq_environment_data.h", SER+"json_cereal_mapper.h"],
  mech=[("sending", "core/modules/zmq_mdlw/src/zmq_env.cpp: publishConfiguration"), ("receiving", "core/modules/zmq_mdlw/src/zmq_env.cpp: ZMQConfigurationPoller::poll")]),
 dict(id="C40", title="Machines and listeners loaded from a file follow the file",
  statement="A state machine loaded from a configuration file starts in the first state of the file under the name in the file, and moves exactly as the transitions of the file say, the first matching transition of the current state taking effect; events without a transition leave it where it is. A listener loaded from the same file runs the actions of the states that this machine enters, and no others. The order of the members of an object does not matter, nor do unknown members. A file that is missing, is no document, or lacks a member or has one of a wrong type is refused with an exception.",
  over=["inputs", "histories", "configurations"], q="every machine of up to two states and three transitions on arbitrary events, every order of members, every sequence of two events, and every missing or wrong member",
  why="The tests load two fixed files and follow one path through each.",
  files=["state_machine/modules/json_conf/include/klepsydra/state_machine/json_to_state_machine.h", "state_machine/modules/json_conf/src/json_config_loader.cpp", "state_machine/modules/json_conf/src/kpsr_state_machine.cpp"],
  mech=[("reading the file", "state_machine/modules/json_conf/src/json_config_loader.cpp"), ("building machine and listener", "state_machine/modules/json_conf/src/kpsr_state_machine.cpp, "+SM+"src/sm_factory_impl.cpp")]),
 dict(id="C41", title="Providers given a container later use it from then on and leave it clean",
  statement="An event loop or a data multiplexer created without a container can be given one later. Publishers made, and listeners added, from then on are attached to it once; a multiplexer's publisher, and an event loop's scheduler when there is nothing else on the loop, are attached at once. An event loop that runs ignores the container. Events and tasks arrive as before. When the provider has ended, nothing of it is left in the container.",
  over=["histories", "configurations", "inputs"], q="every kind of emitter, what exists before and after the container is set, running or not, and every event",
  why="No test sets a container later.",
  files=[H+"event_loop_middleware_provider.h", H+"event_loop_function_exec_listener.h", H+"data_multiplexer_middleware_provider.h"],
  mech=[("setting the container", H+"event_loop_middleware_provider.h: setContainer, "+H+"data_multiplexer_middleware_provider.h: setContainer"), ("attaching and detaching", "core/modules/core/include/klepsydra/core/event_emitter_subscriber.h")]),
 dict(id="C42", title="Cereal mappers restore every event and refuse cut-off messages",
  statement="Writing an event with the binary or the JSON mapper and reading the message with the same mapper restores the event field by field, whatever the message or the event read into held before. The binary mapper adds exactly one event to a stream, so that several events written one after the other are read in the same order; a message can be read in place through a non-copying buffer as well as from the stream. A message that is cut off is refused with an exception, nothing beyond its end is read, and the mapper can be used again. Neither direction changes its source.",
  over=["inputs", "configurations"], q="every value of every field, strings and vectors up to the bound, every place at which a message is cut off",
  why="The tests (not built here) map one event with fixed values.",
  files=["serialization/modules/serialization/include/klepsydra/serialization/binary_cereal_mapper.h", "serialization/modules/serialization/include/klepsydra/serialization/json_cereal_mapper.h", C+"non_copying_stream_buffer.h"],
  mech=[("binary messages", "serialization/modules/serialization/include/klepsydra/serialization/binary_cereal_mapper.h, "+C+"non_copying_stream_buffer.h"), ("JSON messages", "serialization/modules/serialization/include/klepsydra/serialization/json_cereal_mapper.h")]),
 dict(id="C43", title="A sensor reading keeps its fields through copies and clones",
  statement="A sensor reading made from a frame, a sequence number and a time has exactly these; one made without a time has the time of its making in milliseconds since the epoch, and one made from nothing has an empty frame and the number 0. A copy, an assigned or a cloned reading equals its source, also when it is part of a larger reading, is independent of it, and leaves it alone.",
  over=["inputs", "histories"], q="every sequence number and time, every short frame, and every short sequence of copies, assignments, clones and changes of two readings",
  why="No unit test looks at the base class's own fields; a field that a copy or a constructor forgets shows only when it differs from what was there before.",
  files=[C+"sensor.h"],
  mech=[("construction, copy and clone", C+"sensor.h: Sensor, clone")]),
 dict(id="C44", title="A ring gives every position its own slot and starts filled as asked",
  statement="A ring of N events keeps the event of a position in the slot that the position shares exactly with those a multiple of N apart: what is written to a position is read there, also through a constant ring, and changes no other slot and nothing outside the ring, for every position. A ring made of an event holds a copy of it in every slot; one made with an initializer calls it exactly once for every slot; nothing is published in either. A sequence starts at -1 or where asked, and setting, adding, counting and comparing-and-setting give exactly the resulting position. A group of sequences is where its slowest member is at that moment.",
  over=["inputs"], q="every pair of positions in rings of 2, 4 and 8 slots, every 64-bit position and increment, every group of up to 4 sequences",
  why="Tests use a few small positions in order; aliasing slots, an initial event that misses a slot or overruns the ring, and arithmetic on far positions show only for particular values.",
  files=[D+"ring_buffer.h", D+"sequence.h", D+"fixed_sequence_group.h", D+"utils/util.h", D+"utils/cache_line_storage.h"],
  mech=[("slot of a position", D+"ring_buffer.h: operator[]"), ("initial events", D+"ring_buffer.h: constructors"), ("position arithmetic", D+"sequence.h"), ("slowest member", D+"fixed_sequence_group.h and "+D+"utils/util.h: get_minimum_sequence")]),
 dict(id="C45", title="Maps of named values and properties are restored from JSON",
  statement="Writing a map from names to values, or to properties, as part of a JSON document and reading it back restores exactly its names and values, whatever the map that is read into held before and whatever characters the names and texts contain; what stands before and after the map in the document is restored too, and writing leaves the map as it is. Properties keep their type.",
  over=["inputs", "configurations"], q="every name from a set with empty, quoted, control and non-ASCII characters, every value up to the bound, empty and filled targets",
  why="The tests write and read one fixed configuration; a value that swallows its neighbour, an entry that stays behind or an empty map shows only in particular shapes.",
  files=[C+"property.h"],
  mech=[("maps as JSON objects", C+"property.h: cereal::save, cereal::load")]),
]
NOT_APPLICABLE = {}
