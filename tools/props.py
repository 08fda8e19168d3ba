#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (claimed = a harness/<id>*.cpp exists)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HP = "high_performance/modules/high_performance/include/klepsydra/high_performance/"
D = HP + "disruptor4cpp/"
CO = "core/modules/core/include/klepsydra/core/"
MM = "core/modules/mem_mdlw/include/klepsydra/mem_core/"
SO = "core/modules/socket_mdlw/"
ZM = "core/modules/zmq_mdlw/include/klepsydra/zmq_core/"
SE = "serialization/modules/serialization/include/klepsydra/serialization/"
SM = "state_machine/modules/state_machine/include/klepsydra/state_machine/"
JC = "state_machine/modules/json_conf/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], note=note))


SCHED = "every interleaving of the threads at synchronisation operations (within the stated preemption bound)"
RT = "The real code runs under the controlled scheduler; trusts the checker runtime (rt/mc.cpp), gcc and libstdc++. Bounded: "

prop("C01", "Single-producer ring: exactly-once, in-order, intact delivery",
     "Every event published on a single-producer ring buffer is handed to every registered consumer exactly once, in publication order, with exactly the contents that were written before it was published, for every wait strategy, ring size and batch size. The producer and the consumers terminate: no publication is lost, no consumer stays asleep while an event is available.",
     ["schedules", "programs"], SCHED + " of one producer and up to three consumers, wrap-around claims of one and several slots, each wait strategy, and relaxed loads returning older admissible values.",
     "The tests start threads and sample a few schedules of x86; they never force a wake-up to race with a publication or a stale read of a sequence.",
     [D + "ring_buffer.h", D + "single_producer_sequencer.h", D + "sequence.h", D + "sequence_barrier.h", D + "batch_event_processor.h"],
     [("cursor published with release and read with acquire", D + "sequence.h"), ("wait strategy signalled after the cursor moves", D + "single_producer_sequencer.h")],
     RT + "3 threads, rings of 1, 2 and 4 slots, up to 7 events, up to 3 preemptions (6 thorough).")
prop("C02", "Multi-producer ring: unique claims, ordered gap-free delivery",
     "When several threads publish concurrently on a multi-producer ring buffer, no two claims ever overlap, and every consumer receives every published event exactly once, in sequence order, with the contents its producer wrote; a claimed but unpublished slot holds later slots back and is never delivered early. Each producer's own events keep their order.",
     ["schedules", "programs"], SCHED + " of two or three producers with one or two consumers, single and batch claims, blocking and non-blocking claims.",
     "Needs the interleavings in which a later claim is published before an earlier one and the ring wraps in between; the tests run free threads.",
     [D + "multi_producer_sequencer.h", D + "ring_buffer.h", D + "sequence_barrier.h"],
     [("per-slot availability flags carrying the wrap round", D + "multi_producer_sequencer.h"), ("compare-and-swap claim", D + "multi_producer_sequencer.h")],
     RT + "3-4 threads, rings of 2 and 4 slots, up to 6 events, 2-3 preemptions.")
prop("C03", "Back-pressure: a producer never overwrites an unconsumed slot",
     "A blocking claim never returns a slot that some gating consumer has not yet passed, and a non-blocking claim fails instead of doing so and succeeds whenever there is room; removing or adding gating consumers changes which consumers count. The claim of a full ring resumes once the slowest consumer advances.",
     ["schedules", "histories"], SCHED + " of producers against slow consumers whose progress is a free choice, and with the ring at sequence numbers around the 31- and 32-bit boundaries.",
     "The tests' consumers keep up and their sequence numbers stay small; overwriting needs the exact moment a cached minimum is stale, or two billion publications.",
     [D + "single_producer_sequencer.h", D + "multi_producer_sequencer.h", D + "utils/util.h"],
     [("wrap point compared with cached then actual minimum consumer sequence", D + "multi_producer_sequencer.h")],
     RT + "rings of 1, 2 and 4 slots, 2 producers, 2 gating consumers, start sequences up to 2^33.")
prop("C04", "Dependent consumers never run ahead of the stages they depend on",
     "In any pipeline, diamond or fan-out of consumers, a consumer handles a sequence only after every consumer it was declared to depend on has finished handling it, and observes everything those consumers wrote. The end of the pipeline still sees every event exactly once in order.",
     ["schedules", "configurations"], SCHED + " of a producer with chain and diamond topologies, blocking and spinning wait strategies.",
     "Violations need a downstream consumer to be scheduled between an upstream consumer's handling and its progress publication.",
     [D + "sequence_barrier.h", D + "fixed_sequence_group.h", D + "batch_event_processor.h"],
     [("barrier waits on the minimum of the dependent sequences", D + "fixed_sequence_group.h")],
     RT + "3-4 threads, 2-3 events, 2 preemptions.")
prop("C05", "Wait strategies: wake on publish, abort on alert, honest timeouts",
     "For every wait strategy, a consumer waiting for a sequence returns once that sequence is published and its dependencies have reached it, never reports as available a sequence that is not, and aborts with an alert if it is alerted at any time, however the publication or alert interleaves with going to sleep. A time-limited strategy reports a timeout only after its limit has elapsed without the sequence becoming available.",
     ["schedules"], SCHED + " of a waiter against a publisher and against an alerting thread, including early timer expiries and spurious wake-ups.",
     "A lost wake-up occurs only when the signal falls between the waiter's last check and its going to sleep; tests practically never hit it.",
     [D + "wait_strategies/blocking_wait_strategy.h", D + "wait_strategies/lite_blocking_wait_strategy.h", D + "wait_strategies/timeout_blocking_wait_strategy.h", D + "wait_strategies/phased_backoff_wait_strategy.h", D + "wait_strategies/sleeping_wait_strategy.h", D + "wait_strategies/yielding_wait_strategy.h", D + "wait_strategies/busy_spin_wait_strategy.h"],
     [("condition re-checked under the mutex before waiting", D + "wait_strategies/blocking_wait_strategy.h")],
     RT + "2-3 threads, 1-2 waits, up to 4 preemptions, 1 spurious wake-up, 1-2 early timers, 1-2 stale loads.")
prop("C06", "Batch processors start, stop, restart and survive handler errors",
     "Halting a consumer always makes its run return, whenever the halt arrives after the run was started; a second concurrent run is refused; start and shutdown are notified once per run; and a run after a halt continues with the first event not yet handled. An exception thrown by the handler is reported for that event only, and the event counts as handled.",
     ["schedules", "fault_sequences"], SCHED + " of run, halt, second run and a publisher, with the handler throwing at any chosen event.",
     "The interleaving of halt with the first instructions of run is a window of a few instructions.",
     [D + "batch_event_processor.h", D + "no_op_event_processor.h", D + "sequence_barrier.h"],
     [("running flag and barrier alert", D + "batch_event_processor.h")],
     RT + "3 threads, 2-3 events, 3 preemptions.")
prop("C07", "Ring buffer claim, publish and capacity arithmetic matches the model",
     "For every sequence of claims, publications in any order, consumer advances and queries, the ring buffer's answers (claimed sequence, remaining capacity, available capacity, availability of a sequence, highest published sequence, cursor, minimum consumer sequence) equal those of the simple mathematical model, for every legal buffer size and starting position including very large sequence numbers.",
     ["histories", "inputs"], "every operation sequence up to the stated depth over small argument domains, from several base sequences including ones next to 2^31 and 2^32.",
     "Tests check a few literal sequences starting at zero.",
     [D + "single_producer_sequencer.h", D + "multi_producer_sequencer.h", D + "ring_buffer.h", D + "utils/util.h"],
     [("index and round of a sequence", D + "multi_producer_sequencer.h")],
     RT + "all operation sequences of depth 6-8 on rings of 1, 2, 4 slots.")
prop("C08", "Event loop delivers each event exactly once, in order, one at a time",
     "Every event a running event loop accepts is delivered exactly once, with the contents it was published with, to each listener subscribed to its topic at that time, on the loop's single thread, in the order the loop accepted it; listeners of other topics, whatever the topics are called, never see it, and no two listeners run at the same time. Events of one thread keep their order, across all topics. Publishing never blocks: an event that finds no room is counted as discarded and not delivered, and no event is discarded while there is room. Once its listeners have returned the loop lets go of an event and does not keep it until its place is used again. This holds for every way to publish, pooled or not, for events published by listeners, for scheduled tasks, and after a listener threw.",
     ["schedules", "programs"], SCHED + " of two publishing threads on two topics with rings of 2 and 4 that do and do not fill up, nested publication, pooled events, throwing listeners, listeners registered late, and every combination of publication kind, pool size, initialiser, cloner and emitter type.",
     "Ordering across topics and publishers and exactly-once with a full ring depend on the interleaving.",
     [HP + "event_loop.h", HP + "event_loop_publisher.h", HP + "event_loop_event_handler.h", HP + "event_loop_subscriber.h", HP + "event_loop_function_exec_listener.h", CO + "object_pool_publisher.h"],
     [("one ring and one consumer thread per loop", HP + "event_loop.h"), ("non-blocking claim, discard counted", HP + "event_loop_publisher.h")],
     RT + "2-4 threads, rings of 2 and 4, up to 7 events, 2-3 preemptions; SDK types are stand-ins; one publisher object is used by one thread at a time, except by the scheduler.")
prop("C09", "Event loop lifecycle: stop, restart and destruction lose and invent nothing",
     "Starting, stopping and destroying an event loop in any order terminates, also when a start gave up waiting for its thread. Once stopping has returned, no listener runs until the next start. An event published while the loop is stopped, or never was started, is accepted if the ring has room and counted as discarded otherwise; every accepted event is delivered exactly once, in order, as soon as the loop runs (again). Destroying a loop or its provider, running or not, with events or scheduled tasks pending, stops it first: nothing runs and no memory is used afterwards.",
     ["schedules", "histories"], SCHED + " of every program of up to 5 operations (7 thorough) of start, stop, publish and drain, and of publishers, scheduler tasks and time-outs racing with stop, restart and destruction.",
     "Stop racing with start-up or with a publisher is a narrow window; tests start a loop once.",
     [HP + "event_loop.h", HP + "event_loop_publisher.h", HP + "event_loop_middleware_provider.h"],
     [("loop thread joined in stop", HP + "event_loop.h"), ("gating sequence of the loop", HP + "event_loop.h")],
     RT + "3-4 threads, rings of 2 and 4, up to 5 events, 1-3 preemptions; start and stop are called by one controlling thread, never by a listener.")
prop("C10", "Data multiplexer: every subscriber sees an ordered stream up to the newest event",
     "Each subscriber of a data multiplexer sees, in publication order and untorn, a subsequence of the values accepted since it was obtained: never one twice, never one older than one it saw, and it skips a value only when a newer one was already published; a listener that fell behind goes on with the newest there is. The newest accepted value always reaches it, so one that keeps up sees every value. For each of its listeners, an accepted value is counted either as processed or as discarded, once. Publishing never blocks: when the ring has no room for an event (a subscriber lags by its whole size) the event is counted as discarded by the publisher, and as long as there is room it is accepted. A publication that fails, because the cloner or the process function throws, is reported to its caller, publishes nothing and uses up no room. An event does not change while a listener handles it. A subscriber or listener that throws, is slow, leaves or fails to start does not disturb the others, and destroying a subscriber or the multiplexer waits for a running listener, releases the ring and neither hangs nor crashes.",
     ["schedules", "programs"], SCHED + " of one publisher and one or two subscribers with two listeners each, every program of publications (copied, shared, processed in place, failing), drains and late subscribers up to a depth; listeners that throw or leave, subscribers that are destroyed or time out at any time.",
     "Needs concurrent publication into the slot a slow listener is about to read, or a failure at a particular fill level of the ring.",
     [HP + "data_multiplexer_middleware_provider.h", HP + "data_multiplexer_publisher.h", HP + "data_multiplexer_subscriber.h", HP + "data_multiplexer_event_handler.h"],
     [("one batch processor per subscriber gating the ring", HP + "data_multiplexer_subscriber.h")],
     RT + "3 threads, rings of 1, 2 and 4, up to 6 events, programs of up to 4 (quick) or 6 (thorough) operations, 1-2 (quick) or 2-3 (thorough) preemptions.")
prop("C11", "Schedulers run each task as often and only as long as requested",
     "A one-shot task runs exactly once, not before its delay, unless it is stopped before; a repeating task runs again and again, no more often than its period and never twice at once, starting again once its period has passed since its last start (or at once, if its run took longer), until stopped. Stopping waits for a run that has begun, and once stopping a task has returned, the task never starts again (on an event loop: is never published again). Starting a task under a name in use replaces the task, stopping one leaves those of other names alone, and starting, stopping and destroying a scheduler in any order neither crashes nor hangs. Services follow the same rules and run only while they are up. None of this depends on how long a run takes or on the time of day being set.",
     ["schedules", "histories"], SCHED + " of every short program of starts, stops, waits and pauses against the tasks' timers, in virtual time with early timer expiries.",
     "Tests sleep and count; stop racing with expiry, replacement and destruction are not reached.",
     [MM + "basic_scheduler.h", "core/modules/mem_mdlw/src/basic_scheduler.cpp", HP + "event_loop_scheduler.h", "high_performance/modules/high_performance/src/event_loop_scheduler.cpp"],
     [("thread per task with a stop flag", MM + "basic_scheduler.h")],
     RT + "programs of 3-4 operations on two tasks (5 thorough), 1-2 preemptions (up to 3), 1 early timer (2); the controlling thread is not a task itself.")
prop("C12", "Lock-free stack is linearizable and neither loses nor duplicates slots",
     "Concurrent pushes and pops on the lock-free stack behave as if executed one at a time: a popped element is one that was pushed and not yet popped, an empty answer is only given when the stack was empty at some moment of the call, a push fails only when it was full, and an element's contents reach the popper intact. Elements that are never popped are destroyed exactly once with the stack.",
     ["schedules", "histories"], SCHED + " of two to four threads, slot reuse (ABA) patterns, plus every sequential operation sequence to a depth.",
     "ABA and publication-order failures need a thread suspended between reading the head and its compare-and-swap.",
     [CO + "lock_free_stack.h"], [("tagged head word", CO + "lock_free_stack.h")],
     RT + "2-4 threads with up to 3 operations each, capacity 1-3, up to 6 preemptions, stale loads.")
prop("C13", "Object pool: an object has one holder and always comes back",
     "An object handed out by the pool is never handed out again before its holder released it, keeps its contents meanwhile, and returns to the pool exactly once when released, from any thread; when the pool is empty the acquirer gets a fresh object which never joins the pool beyond its capacity. Exhaustion is counted exactly.",
     ["schedules", "histories"], SCHED + " of two or three threads acquiring and releasing, pools of one and two objects.",
     "Double hand-out requires two threads inside acquire at once.",
     [CO + "smart_object_pool.h", CO + "lock_free_stack.h"], [("returning deleter", CO + "smart_object_pool.h")],
     RT + "2-3 threads, 2 operations each, 3 preemptions.")
prop("C14", "Pooled publishing delivers each event once with its own contents",
     "Publishing through an object pool delivers each event exactly once, with the contents the publisher produced for it, and those contents never change while any receiver still holds the event, whatever the number of publishers and however late receivers release.",
     ["schedules", "histories"], SCHED + " of two publishers and a receiver that keeps events for a chosen time, and all sequential histories to a depth.",
     "Reuse of an event still held needs a release and a publication to interleave.",
     [CO + "object_pool_publisher.h", CO + "smart_object_pool.h"], [("copy into a pooled object before publishing", CO + "object_pool_publisher.h")],
     RT + "2-3 threads, pool of 1-2, up to 4 events.")
prop("C15", "Thread-safe emitter: safe concurrent emit, subscribe and unsubscribe",
     "On the thread-safe event emitter, threads may emit, subscribe and unsubscribe concurrently: every listener subscribed throughout an emission is called exactly once for it, one that was never subscribed is never called, a once-only listener is called at most once in all, and after an unsubscription finishes no emission that starts later calls it. A listener may itself subscribe, unsubscribe or emit without deadlock.",
     ["schedules", "programs"], SCHED + " of emitters, subscribers and unsubscribers, with re-entrant listeners.",
     "The tests emit from one thread.",
     [CO + "safe_event_emitter.h"], [("listener table copied under the mutex", CO + "safe_event_emitter.h")],
     RT + "2-3 threads, 1-3 operations each, 3 preemptions.")
prop("C16", "Emitters and their subscribers follow the subscription table exactly",
     "For every sequence of subscribe, once-only subscribe, unsubscribe, remove-all, emit and discard on an emitter, each emission calls exactly the listeners then subscribed to that topic, once each, in subscription order, with the emitted value, and once-only listeners are gone afterwards. Listener counts, look-ups and per-listener statistics always agree with the subscription table, and unknown or removed names are tolerated.",
     ["histories"], "every operation sequence up to the stated depth over two topics and two listener names, for the single-listener, multi-listener and thread-safe emitters and the subscriber and publisher on top of them; for the thread-safe emitter also with re-entrant listeners.",
     "Tests follow a handful of fixed scripts; errors appear after particular subscribe/remove orders.",
     [CO + "unsafe_multi_listener_event_emitter.h", CO + "unsafe_single_listener_event_emitter.h", CO + "safe_event_emitter.h", CO + "event_emitter_subscriber.h", CO + "event_emitter_publisher.h", CO + "event_emitter_middleware_provider.h"],
     [("listener tables keyed by topic and id", CO + "unsafe_multi_listener_event_emitter.h")],
     RT + "all operation sequences to depth 4-6; SDK types are stand-ins.")
prop("C17", "Request/reply handler runs each callback once for its own reply",
     "A reply runs the callback of the oldest request it correlates with exactly once and no other; replies to unknown or already answered requests run nothing; requests and replies may come from any threads, including a reply delivered before the request call returns or a callback issuing a further request, without deadlock (the multi-thread handler; the plain one for a single thread). A handler that is gone runs nothing.",
     ["schedules", "histories"], SCHED + " of requesters and repliers, and all sequential request/reply histories to a depth including duplicate, unknown and re-entrant replies.",
     "Reply-before-return and duplicate replies are not tested.",
     [CO + "callback_handler.h"], [("callback table keyed by request", CO + "callback_handler.h")],
     RT + "2-3 threads, 2 requests, 3 preemptions.")
prop("C18", "Cache listener holds the latest value whole",
     "A cache listener returns either nothing or the complete event delivered last, never a mixture of two, and an event already returned does not change afterwards. The multi-thread cache may be delivered to and read by any threads at once: a read after a delivery completed returns that event or a newer one, and a count read together with an event is the number of deliveries up to that event. Every delivery is counted once, after its event can be read, and a cache made to sleep delays its producer by that time and no longer.",
     ["schedules", "histories"], SCHED + " of every short program of two or three threads delivering and reading, and every sequential history to a depth.",
     "A torn or stale cached value needs a read inside the update.",
     [CO + "cache_listener.h"], [("event stored under a mutex", CO + "cache_listener.h")],
     RT + "2-3 threads, 3-4 operations, 2-3 preemptions (3-5 thorough).")
prop("C19", "Container registry attaches and detaches exactly what it is asked to",
     "Attaching a statistics record, service or scheduler to the container makes precisely that item visible and detaching it removes precisely that item and leaves the others; statistics are started and stopped with the container. Concurrent attach and detach from several threads keep the registry consistent.",
     ["schedules", "histories"], "every attach/detach sequence to a depth over two items per kind, and " + SCHED + " of two threads attaching and detaching.",
     "Tests attach one item and remove it again.",
     ["core/modules/core/src/core_container.cpp", CO + "core_container.h"], [("registry lists under a mutex", "core/modules/core/src/core_container.cpp")],
     RT + "all sequences to depth 4, 2 threads; SDK types are stand-ins.")
prop("C20", "Safe queue is a linearizable bounded blocking FIFO",
     "Concurrent pushes and pops on the safe queue behave as a first-in first-out queue operated one call at a time: nothing is lost, duplicated or reordered, a bounded queue never exceeds its bound, a non-blocking call fails only when the queue was really empty or full, and a timed call fails only after its time. A blocked pop or push resumes as soon as an element or room becomes available.",
     ["schedules", "histories"], SCHED + " of two to three threads with blocking, non-blocking and timed operations, spurious wake-ups and early timeouts.",
     "Wake-ups stolen by another consumer and spurious wake-ups do not occur in the tests.",
     [MM + "safe_queue.h"], [("mutex with two condition variables", MM + "safe_queue.h")],
     RT + "2-3 threads with 1-3 operations, capacity 1-2, 3 preemptions, 1 spurious wake-up, 1 early timer.")
prop("C21", "Safe queue copies, moves and swaps keep contents and bound",
     "Copying, moving, assigning or swapping safe queues transfers exactly the elements and the bound, leaves the source as documented, wakes those waiting on what they gained, and is safe while other threads use either queue, including two opposite swaps or assignments at once.",
     ["schedules", "histories"], "all operation sequences to a depth over two queues, and " + SCHED + " of opposite swaps or assignments and of waiters.",
     "The tests copy idle queues; opposite assignments deadlock only when interleaved.",
     [MM + "safe_queue.h"], [("both mutexes locked", MM + "safe_queue.h")],
     RT + "two queues, depth 4, 2-3 threads, 3 preemptions.")
prop("C22", "In-memory middleware delivers every queued event once and stops cleanly",
     "Every event published on the in-memory queue middleware is delivered exactly once, without a copy if it was published as a shared object, and in order to each listener of its topic while the poller runs, also after a listener threw an exception on an earlier one, and stopping it or destroying the provider terminates and never delivers afterwards or touches a destroyed object. With discarding enabled, an overfull queue drops its oldest events and nothing else.",
     ["schedules", "histories"], SCHED + " of a publisher, the poller thread and start/stop/destruction.",
     "Tests sleep until everything is delivered; destruction while running is not exercised.",
     [MM + "basic_middleware_provider.h", MM + "basic_publisher.h", MM + "safe_queue_poller.h", MM + "in_memory_queue_poller.h", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"],
     [("poll loop with running flag", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp")],
     RT + "2-3 threads, up to 3 events, 2 preemptions, virtual time.")
prop("C23", "Concurrent-queue middleware delivers every event once, in order, stops cleanly",
     "Every event published by the publishing thread of a concurrent-queue middleware (its producer token admits one at a time) is delivered exactly once, without a copy if it was published as a shared object, and in order to each listener of its topic while the poller runs, also after a listener threw an exception on an earlier one; stopping it or destroying the provider terminates and never delivers afterwards or touches a destroyed object, and a restart delivers what the stop left queued. A full queue makes the publisher wait, or, with discarding enabled, drops its oldest events and nothing else, each of them counted.",
     ["schedules", "histories"], SCHED + " of the publisher, the poller thread and start/stop/destruction, on the real lock-free queue with two-element blocks so that it fills and reuses them.",
     "Tests sleep until everything is delivered, and their queues never fill.",
     [MM + "concurrent_middleware_provider.h", MM + "concurrent_queue_publisher.h", MM + "concurrent_queue_poller.h", MM + "in_memory_middleware_provider.h", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"],
     [("one producer token for publisher and poller", MM + "concurrent_middleware_provider.h")],
     RT + "2-3 threads, up to 10 events, 1-2 preemptions (2-3 thorough), virtual time; the queue's block size is set to 2.")
prop("C24", "Configuration environments return what was stored",
     "For every sequence of sets, exports, updates and loads on configuration environments, a get of a key (of a root node) and type returns the value last stored under them and true, else the default and false; keys, root nodes and types do not disturb each other. What one environment exports, another reads back equal, whatever the values and keys, as an update (which replaces all properties of the value types it contains and leaves those of other types), as a file loaded under any node name (keys get its prefix) or as the file it is constructed from. A load never overwrites an existing property, adds all the others, and returns false if there was one. Content that cannot be read, or in which a value has the wrong type, is reported and changes nothing. A dynamic property keeps the type of its first store, and stores of the same type overwrite it. The in-memory environment follows the same rules, also when threads share it.",
     ["histories", "inputs", "schedules"], "every operation sequence to a depth over keys, root nodes, all four value types, two environments and all ways to move content between them; every pair of unusual keys with edge values; every combination of sections present, reordered and ill-typed; " + SCHED + " of two threads for the in-memory environment.",
     "Tests set each key once.",
     [CO + "configuration_environment.h", "core/modules/core/src/configuration_environment.cpp", CO + "configuration_properties.h", CO + "property.h", MM + "mem_env.h", "core/modules/mem_mdlw/src/mem_env.cpp"],
     [("one map per type", "core/modules/core/src/configuration_environment.cpp")],
     RT + "all sequences to depth 3-4 (quick) or 4-5 (thorough).")
prop("C25", "Property files mean what they say",
     "Parsing a property file yields for each key exactly the value written after the first equals sign, up to a comment and without the blanks around it, under any mixture of spaces, tabs, comments and blank lines; a line that is no key-value pair, or that repeats a key, is rejected. Typed reads convert the value: text as it is, numbers in decimal or, with 0x, in hexadecimal; a value that is no number of the type asked for is reported, never turned into an arbitrary one. A get of a key tells whether the file has it, and returns the default if not.",
     ["inputs"], "every file of up to a few lines built from an alphabet of line fragments and value texts, read as every type.",
     "Tests parse two sample files.",
     [CO + "config_file.h", CO + "prop_file_convert.h", CO + "prop_file_environment.h", "core/modules/core/src/prop_file_environment.cpp"], [("line parser", CO + "config_file.h")],
     RT + "all files of up to 2-3 lines over the stated alphabet.")
prop("C26", "Socket messages arrive whole whatever the network does to them",
     "A message sent over a data socket arrives as the same bytes, once, in order and with its boundaries, however the operating system fragments, interrupts or delays reads and writes. A read or write that fails is reported as an error instead of the message passing for complete or the process ending; only a reset by the peer counts, as documented, as the end of what it sent. A read stops at the end of the stream, when its buffer is full, or when its stop condition holds for what it has read so far, and takes nothing further from the stream.",
     ["fault_sequences", "inputs"], "every pattern of short reads and writes, interruptions, would-block answers, end of file and errors up to the stated number of deviations, for message lengths around the buffer sizes.",
     "The loopback interface of the tests delivers small messages whole and never fails.",
     [SO + "src/data_socket.cpp", SO + "include/klepsydra/socket_core/data_socket.tpp", SO + "src/protocol.cpp", SO + "src/protocol_simple.cpp", SO + "include/klepsydra/socket_core/data_socket.h", SO + "include/klepsydra/socket_core/string_resizer.h", SO + "include/klepsydra/socket_core/protocol.h"],
     [("read and write loops", SO + "src/data_socket.cpp")],
     RT + "up to 3 deviations per exchange; system calls answered by an in-process kernel model.")
prop("C27", "Every socket descriptor is closed exactly once",
     "Each descriptor opened by or handed to a socket object is closed exactly once, by its last owner, through every sequence of construction, failure, move, swap, explicit close and destruction, whatever close itself answers; a moved-from or closed socket refuses further use with an error and never touches another descriptor.",
     ["fault_sequences", "histories"], "every operation sequence to a depth with any of the underlying system calls failing.",
     "Tests never make a system call fail.",
     [SO + "src/base_socket.cpp", SO + "src/connect_socket.cpp", SO + "src/server_socket.cpp", SO + "include/klepsydra/socket_core/base_socket.h"],
     [("invalid id marks ownership", SO + "src/base_socket.cpp")],
     RT + "all sequences to depth 4, one fault; system calls answered by an in-process kernel model.")
prop("C28", "Server accepts each client once and reports failures",
     "Accepting yields one working connection per client in order, a waiting accept ends within its time limit, whatever that is, when no client comes, even if an announced client vanishes, and any failure to open, bind (an address already in use, a path too long), listen, accept or connect is reported as an error and leaves nothing open. The address used is the one asked for.",
     ["fault_sequences"], "every outcome of the underlying calls for up to three clients.",
     "Tests accept one client successfully.",
     [SO + "src/server_socket.cpp", SO + "src/connect_socket.cpp"], [("accept with select timeout", SO + "src/server_socket.cpp")],
     RT + "up to 3 accepts, 2 deviations; system calls answered by an in-process kernel model.")
prop("C29", "State machine takes exactly the configured transitions",
     "Starting from the configured initial state, each event moves a state machine along exactly the first configured transition for that event from the current state, and leaves the state unchanged if there is none. A step applies queued events in the order they were queued, up to and including the first that moves the machine, and keeps the rest; no event is lost or applied twice, events sent to a machine that is not started are ignored, and a reset returns to the initial state; in a state the configuration does not describe the machine stays, and takes no steps, until it is reset. Every registered observer is told the resulting state once per step and once per start, with whether it changed, even if another observer registers or removes observers or moves the machine on when told.",
     ["configurations", "histories"], "every machine of up to three states and two events and every event sequence to a depth, with one or more events pending per step.",
     "Tests follow one machine along one path.",
     [SM + "state_machine_impl.h", SM + "state_impl.h", SM + "transition_impl.h", SM + "sm_factory_impl.h", "state_machine/modules/state_machine/src/sm_factory_impl.cpp", "state_machine/modules/state_machine/src/state_machine_impl.cpp", "state_machine/modules/state_machine/src/state_impl.cpp", "state_machine/modules/state_machine/src/transition_impl.cpp"],
     [("transition look-up by event", SM + "state_impl.h")],
     RT + "all machines up to 3 states x 2 events, all event words to length 4-5.")
prop("C30", "State machine listeners run exactly the registered actions",
     "On each entry into a state (a start or a transition, including one to the same state) a listener runs the one-off actions and then the entry actions registered for that state, and on every step its periodic actions, each exactly once and in registration order; a one-off action runs once in all, and actions of other states or other machines do not run. Removing the actions of a state, or all of them, ends exactly those. An action may itself register or remove actions or drive the machine without corrupting the step, in this listener or in others.",
     ["configurations", "histories"], "every registration/event/step sequence to a depth over small machines.",
     "Tests check one entry and one exit.",
     [SM + "state_machine_listener.h", "state_machine/modules/state_machine/src/state_machine_listener.cpp", JC + "src/kpsr_state_machine.cpp"], [("action lists per state", SM + "state_machine_listener.h")],
     RT + "all sequences to depth 4-6.")
prop("C31", "Loading a state machine from its configuration preserves it",
     "A machine loaded from a textual configuration has exactly the states, initial state, events and transitions the text describes, whatever its spacing, key order, extra members or quoting, and behaves as the machine built by hand; a configuration that is unreadable, malformed, or lacks or mistypes a required member is rejected with an error rather than producing a different machine.",
     ["inputs", "configurations"], "every configuration of up to three states and two events and every single-token corruption of one.",
     "Tests load one file.",
     [JC + "include/klepsydra/state_machine/json_to_state_machine.h", JC + "src/json_config_loader.cpp", SM + "config_state_machine.h", JC + "src/kpsr_state_machine.cpp"],
     [("JSON archive reader", JC + "include/klepsydra/state_machine/json_to_state_machine.h")],
     RT + "all configurations to 3 states x 2 events.")
prop("C32", "Mappers round-trip every message",
     "Converting an event to its middleware form and back yields an equal event for every supported payload, with one mapper instance reused for any sequence of messages of different lengths, and one message never leaks bytes into another.",
     ["inputs", "histories"], "every sequence of messages to a depth over payloads of different kinds and lengths for each mapper.",
     "Tests convert one message per mapper.",
     [SE + "binary_cereal_mapper.h", SE + "json_cereal_mapper.h", SE + "identity_mapper.h", SE + "void_caster_mapper.h"],
     [("stream archive per message", SE + "binary_cereal_mapper.h")],
     RT + "all message sequences of length 3 over an alphabet of payloads.")
prop("C33", "Message-bus bridge delivers every message whole to its topic's listeners",
     "A message published through the message-bus bridge goes out once, as its topic followed by exactly the event's bytes, and reaches the listeners registered for exactly that topic once, in order and with equal contents, in every encoding and for any sequence of messages of different lengths. Once a topic is unregistered nothing more is delivered to it, and it can be registered again. A message that cannot be decoded, or whose topic nobody registered, is dropped and disturbs no other. Stopping, restarting or destroying the bridge at any time, or a start that times out, ends cleanly, and nothing is delivered afterwards. Environments that share a key over the bus come to have the properties last set in, or loaded into, any of them; their own messages, those of other keys and those that cannot be read change nothing, and properties can be read and set at any time.",
     ["schedules", "histories"], "every sequence of messages, ways to publish, registrations, removals, restarts and malformed messages to a depth; " + SCHED + " of the polling threads, for the bridge and for two environments, over a model of the bus's sockets.",
     "Tests publish a few messages over a live bus, and need the bus's library.",
     [ZM + "binary_to_zmq_channel.h", ZM + "json_to_zmq_channel.h", ZM + "void_caster_to_zmq_channel.h", ZM + "to_zmq_middleware_provider.h", ZM + "zmq_poller.h", ZM + "binary_zmq_poller.h", ZM + "json_zmq_poller.h", ZM + "void_caster_zmq_poller.h", ZM + "from_zmq_middleware_provider.h", ZM + "zmq_env.h", ZM + "zmq_environment_data.h", "core/modules/zmq_mdlw/src/zmq_env.cpp"],
     [("topic frame followed by content frame", ZM + "binary_to_zmq_channel.h"), ("function per topic under a mutex", ZM + "zmq_poller.h"), ("source id and key of each update", "core/modules/zmq_mdlw/src/zmq_env.cpp")],
     RT + "all sequences to depth 4 (quick) or 6 (thorough), 2 or 3 preemptions; the bus is replaced by a model of its publish/subscribe sockets (sdk/zmq.hpp).")
prop("C34", "Managed services, forwarders and channels pass on each event once",
     "A managed service is started by a start event of the system and stopped by a stop event, once each however often the event is repeated, runs only in between, ignores other events, and is told nothing once it is destroyed; it may also outlive the system. A forwarder, or a chain of them, and a channel to or from a middleware hand on every event exactly once, in order and with equal contents, whatever the way of publishing, the pooling and the encoding, and an event that was handed on does not change. A sensor event and its copies keep what they were made of.",
     ["histories", "schedules"], "every sequence of system events, runs and destructions of two services to a depth, for every kind of emitter; every sequence of ways to publish through chains of forwarders and channels of every encoding; " + SCHED + " of system events delivered on a queue's thread and of two channels into one listener.",
     "There is no test of any of these.",
     [CO + "manage_service.h", CO + "system_event.h", CO + "event_forwarder.h", CO + "to_middleware_channel.h", CO + "from_middleware_channel.h", CO + "sensor.h"],
     [("listener registered at the system's subscriber", CO + "manage_service.h"), ("mapper called into the middleware's own event", CO + "to_middleware_channel.h")],
     RT + "all sequences to depth 5-6 (quick) or 7-8 (thorough).")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
have = set(re.match(r"C\d+", h).group(0) for h in os.listdir(os.path.join(V, "harness")) if re.match(r"C\d+", h))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="VERIF_MC", enable="no hooks were needed: the checker interposes pthread, atomics and system calls at link time; the guard name is reserved and unused", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                      thorough_cmd="python3 check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                      technique="stateless model checking of the implementation (controlled scheduler, exhaustive within deviation bounds)"
                      if "schedules" in p["over"] else "exhaustive bounded exploration of operation/input/fault sequences on the implementation against a reference model",
                      level="model_checking", level_note=p["note"]) for p in P if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in have],
         notes="check.py builds the harnesses from /repo's working tree and explores them with rt/libmc; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for q in P:
    for x in q["files"]:
        if not os.path.exists("/repo/" + x):
            print("missing", x)
print(len(P), sorted(have))
