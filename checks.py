"""What each check runs and what it is judged by."""
REAL = ['all C++ sources of /repo under include/, src/ and src-gen/ except the Python bindings: simulator, scheduler, time keeper, '
        'event manager, logger, link registry, resolver, components, containers, references, event sources and sinks, fields, '
        'publication, storage reader and writer, persistence helpers, library loading, value types',
        'libstdc++ containers, strings, file streams, std::thread, std::mutex, std::shared_mutex, std::condition_variable',
        'the SMP interface headers, reconstructed from their use in the repository (the originals are fetched at build time)']
STUB = ['thread scheduler, mutexes, condition variables and thread creation: the seeded simulator decides every switch, wake-up and spurious wake-up',
        'monotonic and wall clock: simulated, advanced by the simulator, with jumps where the workload asks for them',
        'files: an in-memory disk behind the stdio/POSIX calls used by the file streams, with open, write, short-write, disk-full and sync faults',
        'heap: an arena with use-after-free and overflow detection and failing allocations',
        'dlopen, dlsym, dlclose: a table of in-process libraries with failing loads and missing symbols']
ASSUME = ['the SMP interface headers are a reconstruction: signatures and constants follow the use in the repository',
          'memory accesses are observed through compiler instrumentation of the repository code (clang -O1); interleavings are sequentially consistent',
          'one simulated run is bounded in operations, threads and scheduling steps']
SEQ = 'a random program of entry points that post, change and remove events, run on the real scheduler with all its threads under the simulated one'
MODEL = 'an executable reference model of the event table, advanced with every entry point call; a difference is reported at once'
CHECKS = {
 'P01': {'title': 'events run in time and posting order', 'workloads': {'sched_order': 4, 'sched_modify': 1, 'sched_base': 1}, 'what': SEQ, 'oracle': MODEL},
 'P02': {'title': 'exactly as often as asked', 'workloads': {'sched_repeat': 4, 'sched_hold': 1, 'sched_modify': 1}, 'what': SEQ, 'oracle': MODEL},
 'P03': {'title': 'remove and change take effect exactly', 'workloads': {'sched_modify': 1}, 'what': SEQ + ', with calls that run out of memory', 'oracle': MODEL},
 'P04': {'title': 'several threads', 'workloads': {'conc': 1}, 'what': 'one to three client threads posting, changing, removing and querying events of all kinds while the simulation runs, with calls that run out of memory',
         'oracle': 'call/return history of every operation against entry point invocations, happens-before race detection, deadlock and progress detection'},
 'P05': {'title': 'wall-clock events', 'workloads': {'zulu': 1}, 'what': 'random posting, re-timing and removing of wall-clock events from clients, entry points and wall-clock events, with clock jumps, slow threads, spurious wake-ups and calls that run out of memory',
         'oracle': 'interval model over the recorded history of the simulated wall clock: each execution not early, in order, once, within a bounded delay'},
 'P06': {'title': 'mission and epoch time events', 'workloads': {'sched_base': 1}, 'what': SEQ, 'oracle': MODEL},
 'P07': {'title': 'immediate events', 'workloads': {'sched_imm': 1}, 'what': SEQ, 'oracle': MODEL},
 'P08': {'title': 'hold and timed run', 'workloads': {'sched_hold': 2, 'conc_hold': 1}, 'what': SEQ + ', and hold requests from up to three other threads', 'oracle': MODEL + '; progress after every accepted hold'},
 'P09': {'title': 'pacing', 'workloads': {'pace': 1}, 'what': 'random event programs run with target speeds, slow entry points, stalled threads and wall-clock jumps',
         'oracle': 'lower and upper bounds on the simulated wall clock at every entry point invocation'},
 'P11': {'title': 'log messages', 'workloads': {'logger': 1}, 'what': 'one to four threads logging to two or three destinations with levels, paths and patterns chosen at random, over simulated files and the console, with failing allocations and the logger destroyed in the middle of the traffic',
         'oracle': 'parse of every destination: each accepted message once, whole, in an order compatible with the call/return history, none elsewhere'},
 'P12': {'title': 'failing log disk', 'workloads': {'logfault': 1}, 'what': 'logging while the simulated disk refuses to open, writes short, fails or fills up, with malformed configuration texts',
         'oracle': 'every call and the shutdown return, no exception, unaffected destinations hold every message, failing ones hold what was written before the first failure intact'},
 'P13': {'title': 'log kinds', 'workloads': {'logkind': 1}, 'what': 'one to four threads querying and logging kinds by name, with failing allocations, store and restore into a second simulator',
         'oracle': 'name/identifier bijection over all threads and lives, records carry the name the identifier was queried for'},
 'P19': {'title': 'state machine', 'workloads': {'state': 1}, 'what': 'random sequences of all simulator operations, from the top level and nested in subscribers of every global event, initialisation entry points and scheduled entry points',
         'oracle': 'reference state machine: every announcement, its order, the state it is made in, results, warnings, and that the simulator is left usable'},
 'P22': {'title': 'store and restore', 'workloads': {'persist': 1}, 'what': 'random simulations of up to three components with all kinds of fields, custom state, pending events of every kind and subscriptions are stored, the process dies anywhere after the store, and a new process restores and goes on; also restored in the same process and stored again after the restore',
         'oracle': 'the state and every entry point call with its times and identifiers are equal to those of the storing process; wall-clock events due later run as often as was left'},
 'P23': {'title': 'failing store and restore', 'workloads': {'persistfault': 1}, 'what': 'stores on a failing, filling or short-writing disk or without memory, refused by a component or cut by process death; restores of missing, truncated, foreign and unreadable files and restores without memory',
         'oracle': 'success is accepted only for a file that restores to the stored state; after every failure the simulator is in Standby state, unchanged by a failed store, and goes on step by step like the first process'},
 'P25': {'title': 'failing entry points', 'workloads': {'fault': 1}, 'what': 'random programs whose entry points throw exceptions of every kind or abort the simulator, from events, handlers and wall-clock events',
         'oracle': 'the remaining events still run as the reference says; one error record naming the failing entry point; after an abort nothing further starts and the announcement is made once'},
 'P20': {'title': 'bring-up and take-down', 'workloads': {'bringup': 3, 'state': 1}, 'what': 'random trees of components that add further components and initialisation entry points in every phase, from every callback and between the phases, with failing callbacks and initialisation entry points',
         'oracle': 'lifecycle counters and order of every component, announcements, and initialisation entry points against the registration history'},
 'P21': {'title': 'libraries', 'workloads': {'libs': 1}, 'what': 'random load sequences on a simulated loader: missing files, missing functions, refusing, throwing and nested initialisers and finalisers, memory running out during a load',
         'oracle': 'calls of the initialisers and finalisers, their order, errors raised and recorded, balance of opened and closed handles, and a simulation run afterwards'},
 'P26': {'title': 'value types', 'workloads': {'values': 1}, 'what': 'random programs on C strings, fixed-size strings and variable-type values with allocations failing at every point, and concurrent readers',
         'oracle': 'the same program on std::string, 128-bit integers and doubles after every step; allocation balance, heap checks, overlapping-copy check'},
 'P27': {'title': 'collections', 'workloads': {'colls': 1}, 'what': 'random programs on collections, delegating and owning collections, containers, references and arrays with failing allocations and components that delete siblings when deleted',
         'oracle': 'the same program on std::vector after every step: size, order, lookup, errors raised, element lifetimes'},
 'P28': {'title': 'field connections', 'workloads': {'flow': 1}, 'what': 'random networks of declared and address-published fields (simple, array, nested structure, anonymous) that are connected, changed as a whole and in part, forced, released, disconnected and deleted, with refusing targets and failing allocations',
         'oracle': 'a reference network with the values of every leaf field after every step, errors raised, and no access to deleted fields'},
 'P29': {'title': 'publication', 'workloads': {'pubs': 3, 'reqs': 1}, 'what': 'random programs registering types, publishing fields, properties and operations over them, looking them up, reading, writing, storing and restoring fields, creating and invoking requests; typed values of every shape read from and written to requests by the request helper, by the caller and by the component; with failing allocations',
         'oracle': 'a reference registry and a byte image of the published memory: lookup results, flags, values, exceptions, calls received by the component; a flat map of the simple values of each request'},
 'P30': {'title': 'paths', 'workloads': {'paths': 1}, 'what': 'random trees of components that grow, are published, connected and shrink, with fields of every kind, entry points, event sources and sinks, failures, operations, properties and references, looked up by absolute, relative, alternative and impossible paths with failing allocations',
         'oracle': 'the tree as built: every path leads to exactly its object, GetPath gives it back, impossible paths lead to nothing'},
 'P31': {'title': 'models, services and factories', 'workloads': {'reg': 1}, 'what': 'random sequences of adding, refusing, looking up and deleting models and services of every standard kind, registering factories and creating instances, in every state of the simulator, with failing allocations',
         'oracle': 'plain lists of what was added: every list, lookup and standard service after every step, errors raised, and the destruction of every object exactly once'},
 'P32': {'title': 'what exceptions say', 'workloads': {'errors': 1}, 'what': 'one to three threads with trees of components of their own making requests of some seventy kinds that must be refused (containers, references, events, fields, types, operations, requests, properties, factories, services), before, during and after a run, with failing allocations; the exceptions are kept, handed over and read again after the texts passed are gone',
         'oracle': 'kind, sender and every typed detail predicted from the request and the state of the object; the same texts whenever and wherever an exception is read again; bad_alloc only when an allocation did fail'},
 'P14': {'title': 'event identifiers', 'workloads': {'events': 1}, 'what': 'one to four threads querying event names, subscribing, unsubscribing and emitting with the identifiers returned, also with failing allocations and after the exit',
         'oracle': 'name/identifier bijection over all threads; every identifier accepted by every operation as soon as any thread knows it'},
 'P15': {'title': 'event emission', 'workloads': {'events': 1}, 'what': 'random nested and concurrent programs of subscribe, unsubscribe and emit on predefined and user events from one to four threads, with failing allocations',
         'oracle': 'nested calls against an ordered list of subscribers; concurrent ones against the call/return history: whoever stays subscribed is called exactly once per emission, nobody else'},
 'P16': {'title': 'time keeper', 'workloads': {'timek': 1}, 'what': 'up to three client threads and the entry points and announcement handlers of a running simulation reading and setting all times, and readers during a restore',
         'oracle': 'search for one sequence of changes of (simulation time, epoch offset, mission start) that explains all results; announcements once each; refusals of SetSimulationTime against the reference bounds'},
 'P17': {'title': 'link registry', 'workloads': {'links': 1}, 'what': 'one to four threads adding, removing and querying links between sources and targets with equal and different names, with RemoveLinks answered by sources that unlink themselves and others, and failing allocations',
         'oracle': 'linearizability of the recorded history against per-pair counters and ordered source lists'},
 'P10': {'title': 'destruction', 'workloads': {'destroy': 1}, 'what': 'random trees of components with events of every kind pending or due, subscriptions, links, queued messages, client threads, failing phases and entry points, Exit and Abort from anywhere, destroyed in any state, beside a second simulator in the same process',
         'oracle': 'the destruction returns within a bounded number of steps and of simulated time, no entry point is called afterwards, every thread, component and file handle is gone, each message is in the log once, the exit is announced once, the other simulator goes on unaffected'},
 'P24': {'title': 'event sources', 'workloads': {'sinks': 1}, 'what': 'random nested programs of subscribe, unsubscribe, emit and remove-links between sources and sinks of all value types',
         'oracle': 'an ordered list of connections per source, checked at every notification and at the end of every emission'},
 'P18': {'title': 'ThreadSafeData', 'workloads': {'tsd': 1}, 'what': 'two to four threads taking, releasing and moving read and write accesses of one shared value',
         'oracle': 'reader/writer exclusion counters inside the guarded value, happens-before race detection, lost-update check, deadlock detection'},
}
NOT_APPLICABLE = {}
