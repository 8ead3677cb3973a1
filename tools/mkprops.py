#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
S='src/Xsmp/Services/'
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':[obs],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
SCH=S+'XsmpScheduler.cpp'
p('P01','Events run in simulation-time order and in posting order',
 'Whenever the scheduler calls an entry point for a simulation-time event, the simulation time seen by that entry point equals the time the event was scheduled for, and simulation time never goes backwards. Among the pending events the one with the smallest time runs first, and events due at the same time run in the order in which they were first posted. The scheduler reports the id of the event being executed while it runs and -1 otherwise.',
 ['programs','histories','schedules'],'all programs of entry points that post, repeat and remove events from inside and outside of execution, over any sequence of runs and holds',
 'A test fixes a handful of event times; ordering faults need particular ties, cascades posted from inside an event, or a hold in the middle of one instant.',
 [SCH],[('time-ordered event table','XsmpScheduler::_EnterExecuting / ExecuteEvents'),('posting order','EventList ordered by unsigned event id')],'entry point invocations, ITimeKeeper::GetSimulationTime, IScheduler::GetCurrentEventId',[('_events_table','pending events by time',S+'XsmpScheduler.h')])
p('P02','Every scheduled event runs exactly as often as asked',
 'An event posted with repeat count n and cycle time c for time t is executed exactly n+1 times, at t, t+c, ..., t+n*c, and one posted with repeat -1 goes on until it is removed; no execution is lost, duplicated or added when the simulation is held and run again any number of times. After its last execution the event id is no longer valid, and every operation on it is rejected with an invalid event id error.',
 ['programs','histories','schedules'],'all sets of single and cyclic events and all placements of holds and re-runs between and inside their executions',
 'Unit tests run one event with one count; loss and duplication come from holds that land in the middle of a batch of simultaneous events or between a cyclic execution and its re-posting.',
 [SCH],[('repeat bookkeeping and re-posting','XsmpScheduler::Execute'),('unexecuted events kept at hold','XsmpScheduler::ExecuteEvents, ExecuteImmediateEvents')],'entry point invocations and results of operations on event ids')
p('P03','Removing or changing a pending event takes effect exactly',
 'An event removed before it starts never runs afterwards, an event whose time is changed runs at the new time and not at the old one, and changes of cycle time and repeat count apply from the next execution on; this holds for calls made between runs, from inside another event, from inside the event itself, for events due at the current instant and for pending immediate events. Operations on unknown ids or on ids of another time kind fail with an invalid event id error, a non-positive cycle time for a cyclic event fails with an invalid cycle time error, and an operation that is refused, also for lack of memory, changes nothing.',
 ['programs','histories'],'all sequences of remove and change operations interleaved with execution, from every context',
 'The dangerous cases (changing an event of the batch that is being executed, or a pending immediate event) are each one specific ordering of a call relative to the execution loop.',
 [SCH],[('RemoveEvent',SCH),('SetEventTime, SetEventCycleTime, SetEventRepeat',SCH)],'entry point invocations and exceptions')
p('P04','The scheduler can be used from several threads at once',
 'While the simulation runs, any number of other threads may post, change and remove events and query the scheduler: every call returns, no two entry points called by the scheduler overlap, all event ids handed out are distinct, and every event accepted and not removed runs exactly as often as asked at a time between its requested delay counted from the call and from the return. A remove that succeeds and returns before the event was started means that the event never runs.',
 ['schedules','histories'],'all interleavings of up to four client threads, the executing thread and the wall-clock event thread',
 'Deadlocks, lost events and invalidated iterators appear only for particular interleavings inside a lock-free window of a few instructions.',
 [SCH,S+'XsmpScheduler.h'],[('event table lock and execution lock','XsmpScheduler::Execute, ExecuteZulu'),('iteration over the table while others insert','XsmpScheduler::_EnterExecuting')],'calls and returns of IScheduler operations, entry point invocations',[('_eventsMutex, _execMutex','locks',S+'XsmpScheduler.h')])
p('P05','Wall-clock events run once each, not early, in order',
 'An event posted for a Zulu (wall-clock) time runs while the simulator is in Standby or Executing state, never before its time, in order of time and then of posting, exactly repeat+1 times at cycle-time distance, and within a bounded delay after it became due as long as the clock is not moved and no other entry point is running. Removed Zulu events never run, a Zulu event can be re-timed to an earlier or a later instant, and posting one in the past is refused.',
 ['schedules','histories','fault_sequences'],'all interleavings of the wall-clock thread with clients and with the executing simulation, with spurious wake-ups, slow threads and wall-clock jumps',
 'Needs control of the clock and of the wake-up order of the background thread; a test can only sleep and hope.',
 [SCH],[('wall-clock thread','XsmpScheduler::InternalZuluRun, ExecuteZulu'),('AddZuluTimeEvent, SetEventZuluTime, RemoveEvent',SCH)],'entry point invocations against the simulated wall clock',[('_zulu_events_table','pending wall-clock events',S+'XsmpScheduler.h')])
p('P06','Mission- and epoch-time events follow their time base',
 'An event posted for an absolute mission time or epoch time runs when the mission or epoch time reaches exactly that value if the time base is not changed in between, with the same ordering, repetition and removal rules as simulation-time events. If the time base is moved so that the event time already lies in the past when the event comes up, the execution is skipped, not run late, and the remaining repetitions go on. Posting for a time in the past is refused, re-timing into the past removes the event.',
 ['programs','histories'],'all interleavings of mission and epoch events with changes of the epoch time, mission time and mission start time',
 'The interplay of a moved time base with events already queued is a history property; tests only use a constant base.',
 [SCH,S+'XsmpTimeKeeper.cpp'],[('skip of outdated events','XsmpScheduler::Execute'),('AddMissionTimeEvent, AddEpochTimeEvent, SetEventMissionTime, SetEventEpochTime',SCH)],'entry point invocations, ITimeKeeper getters')
p('P07','Immediate events run next, once, and only while executing',
 'An immediate event runs exactly once, at the simulation time at which it was posted, after the entry point that posted it and before any other scheduled event, and several pending immediate events run in posting order. Immediate events posted in Standby state stay pending, run first when the simulation is started, and survive a hold that happens before their turn.',
 ['programs','histories'],'all programs that post immediate events from nested contexts, with holds at arbitrary points',
 'Nested posting combined with a hold between two immediate events is outside what a test enumerates.',
 [SCH],[('ExecuteImmediateEvents',SCH)],'entry point invocations',[('_immediate_events','pending immediate events',S+'XsmpScheduler.h')])
p('P08','Hold and timed run stop the simulation exactly where asked',
 'An immediate hold lets the current entry point finish and starts no other scheduled event; a deferred hold completes all events of the current instant and does not advance simulation time. A timed run executes every event due up to and including start plus duration, returns in Standby state with simulation time start plus duration, and leaves nothing behind that affects later runs, also when it is stopped early or when holds are requested repeatedly or by several threads. Every run returns within a bounded number of steps after a hold was accepted.',
 ['schedules','programs','histories'],'all placements of hold requests (from entry points, handlers and other threads) relative to the execution loop and its waits',
 'A lost wake-up or a left-over hold needs a request that lands in one particular window.',
 ['src/Xsmp/Simulator.cpp',SCH],[('Simulator::Run, Run(duration), Hold','src/Xsmp/Simulator.cpp'),('_LeaveExecuting wake-up of the pacing wait',SCH)],'simulator state, simulation time after return, entry point invocations',[('_simulationStatus','running or hold',S+'XsmpScheduler.h')])
p('P09','Execution is paced against the wall clock',
 'With target speed s an event due d of simulation time after the start of a run is not executed before d/s of wall-clock time has passed since that start (up to one simulated clock tick per event), and as long as entry points take no time and the wall clock is not moved it is executed within a bounded delay after that. Forward and backward jumps of the wall clock never lose, duplicate or reorder simulation-time events, and the speed that is set is clamped to [0.01, 100] and read back.',
 ['schedules','fault_sequences'],'all event programs with target speeds changed between runs, slow entry points, stalled threads and clock jumps',
 'Needs a controlled clock: a real-time test cannot distinguish a wrong delay from a slow machine.',
 [SCH],[('pacing wait','XsmpScheduler::_EnterExecuting'),('SetTargetSpeed',SCH)],'simulated wall clock at entry point invocations')
p('P10','A simulator can be destroyed at any moment of its life',
 'Destroying a simulator in any state, with events pending, wall-clock events due, messages being logged and links between components, terminates within a bounded number of steps, joins every background thread and touches no object after it was destroyed. No entry point is called after the destruction has returned, every message logged before is written, and a simulator destroyed in Standby state announces its exit exactly once.',
 ['schedules','crash_points'],'all interleavings of destruction with the background threads, from every state including Aborting',
 'Shutdown races need one thread to be inside a callback while another tears its objects down.',
 ['src/Xsmp/Simulator.cpp',SCH,S+'XsmpLogger.cpp','include/Xsmp/Container.h'],[('Simulator::~Simulator, Exit','src/Xsmp/Simulator.cpp'),('DoDisconnect joins the wall-clock thread',SCH),('LoggerProcessor destructor',S+'XsmpLogger.cpp')],'termination, memory accesses, threads alive')
p('P11','Log messages are written exactly once, whole and in order',
 'Every message passed to the logger by any thread is written exactly once to every configured destination whose level and path filters accept it and to no other, as one unbroken record carrying the sender, kind, text and times of the call. Messages of one thread appear in the order in which they were logged, a message whose log call returned before another log call started appears before it, and when the logger has been destroyed every accepted message has been written.',
 ['schedules','histories'],'all interleavings of up to four logging threads with the writer thread, including shutdown while messages are queued',
 'A lost or doubled record needs the writer thread to be interrupted between two specific statements, or the stop request to arrive in a window.',
 [S+'XsmpLogger.cpp'],[('message queue and worker','LoggerProcessor::Push, Process'),('Appender filters','Appender::Append')],'content of log files and console stream',[('_logs','queue',S+'XsmpLogger.cpp')])
p('P12','A failing log disk never disturbs the simulation',
 'When the log destination cannot be opened, fills up or fails to write, logging calls still return, no exception reaches the simulation, no thread ends, other destinations still receive every message, and shutdown completes. Records written before the failure stay intact, and any logger configuration text, however malformed, leaves the simulation able to run and shut down.',
 ['fault_sequences','inputs'],'all sequences of open, short-write, disk-full and write errors on the log files and all configuration texts',
 'Disk faults cannot be produced by the unit tests at chosen points.',
 [S+'XsmpLogger.cpp'],[('FileAppender',S+'XsmpLogger.cpp'),('parseProperties, PatternLayout',S+'XsmpLogger.cpp')],'return of calls, content of the simulated disk')
p('P13','Log kind identifiers are unique and stable',
 'Querying a log message kind name always yields the same identifier, different names never share one, predefined names keep their predefined identifiers, and a message logged with an identifier is written with the name it was queried for. This holds for any number of threads querying and logging at once, and identifiers keep their meaning across a store and restore.',
 ['schedules','histories'],'all interleavings of concurrent first queries of equal and different names',
 'Two first queries of one name must overlap in a short window to expose a fault.',
 [S+'XsmpLogger.cpp'],[('QueryLogMessageKind',S+'XsmpLogger.cpp')],'returned identifiers and written records')
p('P14','Event identifiers are unique, stable and usable at once',
 'Querying an event name yields the same identifier for the same name and distinct identifiers for distinct names from every thread, predefined events keep their predefined identifiers, and an empty name is refused. An identifier returned by a query can be subscribed to, emitted and resolved immediately by the thread that got it, whichever thread created it.',
 ['schedules','histories'],'all interleavings of concurrent queries, subscriptions and emissions',
 'The identifier-to-name table is filled in a second step; only an interleaving between the two shows a difference.',
 [S+'XsmpEventManager.cpp'],[('QueryEventId',S+'XsmpEventManager.cpp')],'returned identifiers and exceptions')
p('P15','Emitting an event calls every subscriber exactly once, in order',
 'Emitting an event calls each entry point subscribed at that moment exactly once, in subscription order; one that was subscribed only later, or to another event, is not called. Handlers may subscribe, unsubscribe and emit from inside a call, double subscription and unsubscription of a non-subscriber are refused and change nothing, and concurrent emissions and subscriptions from several threads neither deadlock nor skip an entry point that stays subscribed.',
 ['schedules','programs','histories'],'all nested programs of subscribe, unsubscribe and emit and all their interleavings between threads',
 'Re-entrant changes of the list being walked and concurrent changes are combinations that tests do not enumerate.',
 [S+'XsmpEventManager.cpp'],[('Emit copies the subscriptions','XsmpEventManager::Emit'),('Subscribe, Unsubscribe',S+'XsmpEventManager.cpp')],'entry point invocations and exceptions')
p('P16','The four time scales stay consistent under concurrent use',
 'At every moment epoch time minus simulation time is the offset last set, and mission time is epoch time minus mission start time; a reader never sees a mixture of an old and a new setting, and after setting epoch, mission or mission start time the getters return the value set until simulation time advances. Simulation time changes only while the scheduler announces a time change, never goes backwards and never beyond the next scheduled event; an attempt to do so is refused and changes nothing, and each change of epoch or mission time is announced once by the corresponding event.',
 ['schedules','histories','programs'],'all interleavings of time setters and getters from several threads with the running simulation',
 'A torn combination of two variables needs an interleaving between two reads.',
 [S+'XsmpTimeKeeper.cpp'],[('getters combining two or three values',S+'XsmpTimeKeeper.cpp'),('SetSimulationTime window',S+'XsmpTimeKeeper.cpp')],'getter results, emitted events')
p('P17','Link counts and link sources agree at all times',
 'The link count of a source and target is the number of links added minus the number removed and never negative; a source is listed for a target exactly while its count is positive, once, in order of first linking, whatever the component names are. Removing a link that does not exist returns false, removing all links of a target asks each source that still has links to it when its turn comes exactly once, and all this holds when several threads add and remove links at the same time.',
 ['schedules','histories'],'all interleavings of add, remove and query operations over a few sources and targets',
 'The count and the source list are kept in two tables that are updated one after the other.',
 [S+'XsmpLinkRegistry.cpp'],[('AddLink, RemoveLink, RemoveLinks',S+'XsmpLinkRegistry.cpp')],'GetLinkCount, GetLinkSources, CanRemove results',[('_links, _targets','count per pair, sources per target',S+'XsmpLinkRegistry.h')])
p('P18','Shared data wrapper gives exclusive writes and stable reads',
 'A write access excludes every other access to the wrapped data and a read access excludes writers, from acquisition until it is released or goes out of scope, also after unlocking and locking again or moving the access object. Non-blocking attempts return empty only while a conflicting access is held and never grant a conflicting access, every blocking access is eventually granted once conflicting ones end, and several readers may hold access at the same time.',
 ['schedules','histories'],'all interleavings of blocking, non-blocking, released, re-acquired and moved accesses of up to four threads',
 'A missing exclusion is visible only when two threads are inside at once.',
 ['src/Xsmp/ThreadSafeData.h'],[('ReadLock, WriteLock, try_read, try_write','src/Xsmp/ThreadSafeData.h')],'occupancy of critical sections, values seen')
p('P19','The simulator follows its state machine',
 'Each operation is carried out only in the states in which it is allowed and is otherwise ignored with a warning and without any effect, and a carried-out operation goes through its states emitting the leave and enter events exactly once each, in order, and in the state they announce: leave events in the old state and enter events in the new one. Operations called from event handlers or entry points follow the same rules, and the simulator is left in a stable state that accepts the following operations.',
 ['programs','histories'],'all sequences of simulator operations, including nested calls from handlers of every global event',
 'The number of sequences of a dozen operations with nested calls is far beyond a test list.',
 ['src/Xsmp/Simulator.cpp'],[('state transitions','src/Xsmp/Simulator.cpp')],'GetState, emitted events, log warnings',[('_state','simulator state','src/Xsmp/Simulator.h')])
p('P20','Every component is brought up and taken down exactly once',
 'Publish, configure and connect are each called exactly once on every component, in that order and parents before their children, before the simulator announces that connecting has finished, also on components added while others are being brought up; components added later are brought up in the same way when a component above them is reconnected, before the simulator announces that reconnecting has finished. Disconnect is called exactly once on every connected component when the simulator exits. Initialisation entry points run exactly once each, in registration order, during the next initialisation and not again, and one that fails aborts the simulation like any other entry point.',
 ['programs','histories'],'all trees of components and all moments of adding components and initialisation entry points',
 'Trees that grow while they are walked, and components added between phases, are not covered by fixed examples.',
 ['src/Xsmp/Simulator.cpp','src/Xsmp/Component.cpp','include/Xsmp/ComponentHelper.h'],[('recursive publish/configure/connect','src/Xsmp/Simulator.cpp'),('component state machine','src/Xsmp/Component.cpp')],'lifecycle calls recorded by components')
p('P21','Libraries are initialised once and finalised in reverse order',
 'Each load of a library that succeeds initialises it exactly once with this simulator, and it is finalised exactly once for it when the simulator is destroyed, in reverse order of loading, also when other libraries fail to finalise. A library that is missing, lacks the required functions or refuses to initialise is reported by the corresponding error and in the log, is never finalised, and leaves the simulator fully usable; this holds also when memory runs out during the load. The handle of a library that lacks the required functions is closed again.',
 ['fault_sequences','histories'],'all sequences of load attempts with missing files, missing symbols, failing and throwing initialisers',
 'Loader failures at each step must be injected; the tests have no way to do that.',
 ['src/Xsmp/Simulator.cpp','src/Xsmp/LibraryHelper.cpp','include/Xsmp/LibraryHelper.h'],[('Simulator::LoadLibrary, destructor','src/Xsmp/Simulator.cpp'),('LoadLibrary, GetSymbol, CloseLibrary','src/Xsmp/LibraryHelper.cpp')],'calls of library entry points, open and close of handles')
p('P22','A stored simulation continues identically after a crash',
 'If a store has completed, then a new process that builds the same components and restores the file continues exactly like the process that stored it: same field values, same simulation, epoch and mission time, same pending events with their remaining repetitions, same subscriptions and identifiers. This holds wherever the storing process died after the store, and storing again right after restoring gives an equal state.',
 ['crash_points','histories'],'all event programs and states, all crash points after a store, several lives',
 'A test stores and restores in one process with one state; losing a kind of pending event or a counter needs arbitrary states.',
 ['src/Xsmp/Simulator.cpp','src/Xsmp/StorageWriter.cpp','src/Xsmp/StorageReader.cpp','include/Xsmp/Persist.h',SCH],[('Store, Restore of the component tree','src/Xsmp/Simulator.cpp'),('service Store/Restore',S),('Persist helpers','include/Xsmp/Persist')],'behaviour of the second life compared with the continuation of the first')
p('P23','Persistence failures are reported and survivable',
 'If the state cannot be written completely the store fails with an error, and if the file is missing, truncated at any length or was stored by a simulation with a different number of components or fields the restore fails with an error; neither ever reports success wrongly, hangs or touches memory out of bounds, also when memory runs out. After a failed store the simulation is back in Standby state in which it can run, store again and exit, and continues as if the store had not been attempted. After a failed restore it is back in Standby state too, and a restore of a good state then gives exactly that state.',
 ['fault_sequences','crash_points','inputs'],'all placements of disk errors, full disk, short writes and read errors during store and restore, and truncation of the file at every length',
 'Needs a disk whose every call can fail on demand.',
 ['src/Xsmp/StorageWriter.cpp','src/Xsmp/StorageReader.cpp','src/Xsmp/Simulator.cpp'],[('StorageWriter, StorageReader','src/Xsmp/StorageWriter.cpp, StorageReader.cpp'),('state around Store and Restore','src/Xsmp/Simulator.cpp')],'exceptions, simulator state, disk content')
p('P24','Event sources notify every connected sink once per emission',
 'Emitting an event source notifies each sink connected at that moment exactly once, in the order of subscription, with the emitted value, except sinks disconnected during the same emission before their turn, which may be left out; sinks may be subscribed and unsubscribed from inside a notification. Subscribing twice, unsubscribing a sink that is not subscribed and subscribing a sink of another type are refused and change nothing; asking a component to remove its links to another one disconnects exactly the sinks of that component, also during an emission.',
 ['programs','histories'],'all nested programs of subscribe, unsubscribe, emit and destruction between several sources and sinks',
 'Changing the set of connections while it is walked is a re-entrancy pattern tests do not cover.',
 ['src/Xsmp/EventSource.cpp','include/Xsmp/EventSource.h','src/Xsmp/EventSink.cpp','include/Xsmp/EventSink.h'],[('DoEmit','src/Xsmp/EventSource.cpp'),('Subscribe, Unsubscribe','src/Xsmp/EventSource.cpp')],'sink callbacks and exceptions')
p('P25','A failing entry point is contained and aborts the simulation',
 'An exception of any kind leaving an entry point called by the scheduler or by an event emission never leaves the simulator: it is logged once as an error naming the entry point, the simulator goes to the Aborting state announcing it once, and the remaining subscribers of the same emission are still called. After the abort no further scheduled event is executed, the run returns within a bounded number of steps, and the simulator can be destroyed cleanly.',
 ['fault_sequences','schedules'],'all placements of failing entry points among scheduled events, wall-clock events and event handlers',
 'The failing call has to be combined with pending, cyclic and concurrent events.',
 ['src/Xsmp/Helper.cpp','src/Xsmp/Simulator.cpp',SCH],[('SafeExecute','src/Xsmp/Helper.cpp'),('Abort','src/Xsmp/Simulator.cpp')],'state, log records, entry point invocations')
p('P26','Strings and variable-type values behave like plain values',
 'Any sequence of construction, copy, move, assignment (also from itself or from a part of itself), modification, search, comparison and conversion of C strings, fixed-size strings and variable-type values gives the same results as on plain strings and numbers: fixed-size strings are cut at their capacity and always terminated, conversions are exact or refused with an error, a copy equals its original, and a moved-from object can be used again. When memory runs out the operation fails with an out-of-memory error, the source is unchanged, and the target holds its old or an empty value and can be used and destroyed. Nothing is leaked, freed twice or accessed out of bounds, and concurrent readers of one value all see that value.',
 ['fault_sequences','programs'],'all programs of value operations with the allocation failing at every possible point',
 'Allocation failure at a chosen point cannot be produced by the unit tests, which sample a few short programs.',
 ['src/Xsmp/cstring.cpp','include/Xsmp/cstring.h','include/Xsmp/String.h','src/Smp/AnySimple.cpp'],[('copy, move, assignment','src/Xsmp/cstring.cpp'),('fixed-size strings','include/Xsmp/String.h'),('conversion, copy, comparison','src/Smp/AnySimple.cpp')],'values, allocation balance, exceptions')
p('P27','Collections, containers, references and arrays hold what was put in',
 'Any sequence of adding, removing, clearing, iterating and looking up by name or position on collections (plain, owning, delegating), containers, references and fixed-size arrays gives the same results as on a plain list in insertion order; duplicate names, wrong types, foreign parents, unknown elements, indices out of range and exceeded lower or upper limits are refused by the corresponding error without any change. Owned elements are destroyed exactly once, when they are removed or together with their owner, also when a component that is being deleted deletes siblings. An addition or removal that fails because memory runs out leaves the contents unchanged.',
 ['programs','fault_sequences'],'all programs of operations with allocations failing at every point',
 'The tests sample a handful of short programs and no allocation failure.',
 ['include/Xsmp/Collection.h','include/Xsmp/Container.h','src/Xsmp/Container.cpp','include/Xsmp/Reference.h','include/Xsmp/Array.h'],[('collections','include/Xsmp/Collection.h'),('containers','include/Xsmp/Container.h'),('references','include/Xsmp/Reference.h'),('arrays','include/Xsmp/Array.h')],'contents after every operation, errors raised, element lifetimes')
p('P28','Connected input fields always hold what their output sends',
 'A connection between two fields is made only if they can carry each other\'s values and both sides allow it; it sends the current value at once, every later change of the output (as a whole, by item or by part, while not forced) reaches each connected input exactly, in order of connection, and a forced field keeps its forced value until it is released. A connection, forced value or assignment that is refused leaves no trace. Disconnecting a field with all its parts, or removing the links to a component with all fields below it, ends exactly these connections and references to it, so that nothing is sent there any more and the component can be deleted.',
 ['programs','fault_sequences'],'all networks of simple, array and structure fields and all sequences of connecting, changing, forcing, disconnecting and deleting, with allocations failing at every point',
 'Partial connections and stale links appear only in combinations of nesting, refusal and removal that tests do not sample.',
 ['include/Xsmp/Field.h','include/Xsmp/Reference.h','src/Xsmp/Field.cpp','src/Xsmp/Publication/Field.cpp','src/Xsmp/Helper.cpp','src/Xsmp/Component.cpp'],[('Connect, Disconnect, push of declared fields','src/Xsmp/Field.cpp'),('fields published by address','src/Xsmp/Publication/Field.cpp'),('equivalence of fields','src/Xsmp/Helper.cpp'),('RemoveLinks','src/Xsmp/Component.cpp')],'values of all fields, exceptions, accesses to deleted fields',[('connected fields','inputs of each output in order','include/Xsmp/Field.h')])
p('P29','Published features are found, read, written and invoked as published',
 'Every published field, property and operation is found by its name with the type, access, view and flags it was published with, down to each item and part of nested types; a second feature of the same name, a bad name or an unregistered type is refused without effect, and everything is gone after unpublishing. Reading and writing a field touches exactly the memory of that field and stores exactly the state it is to keep, and a value that its type does not allow is refused leaving all values as they were. A request accepts exactly the values the type and range of its parameter allow, an invocation delivers exactly these to the component and gives back exactly its result, and memory running out anywhere changes nothing.',
 ['programs','fault_sequences'],'all programs of type registrations, publications, accesses and requests over random nested types, with allocations failing at every point',
 'Combinations of type kind, nesting, range limits and republication are far beyond the sampled tests, and allocation failure cannot be tested.',
 ['src/Xsmp/Publication/Publication.cpp','src/Xsmp/Publication/Field.cpp','src/Xsmp/Publication/Request.cpp','src/Xsmp/Publication/Operation.cpp','src/Xsmp/Publication/Property.cpp','src/Xsmp/Publication/Type.cpp','src/Xsmp/Publication/TypeRegistry.cpp','src/Xsmp/Request.cpp','include/Xsmp/Request.h'],[('publication and lookup','src/Xsmp/Publication/Publication.cpp'),('field access by address','src/Xsmp/Publication/Field.cpp'),('parameter checks','src/Xsmp/Publication/Request.cpp'),('type registry','src/Xsmp/Publication/TypeRegistry.cpp'),('typed request values','src/Xsmp/Request.cpp')],'memory image, lookup results, calls received by the component, exceptions')
p('P30','Paths lead to exactly the object they name',
 'In every tree of components the path of every object that is there (component, service, field and nested field, array item, entry point, event source or sink, failure, operation, property) leads to exactly this object, from the root and from every component, also when it is written with steps back, empty steps or indices counted from the end or passes through a reference, and the path reported for the object is this path. A path to something that is not there, was deleted, is out of range, malformed or leads above the root gives nothing, and no object is created under a name that could not be a step of a path, nor a component added under a name that leads to a feature of its parent. This holds while components and features are added, published, connected and deleted, and memory running out during a lookup is reported and not taken for absence.',
 ['programs','fault_sequences'],'all sequences of growing and shrinking component trees and all lookups in them, with allocations failing at every point',
 'Name clashes between features and children, nested fields and steps back in combination are not sampled by tests.',
 ['src/Xsmp/Helper.cpp','src/Xsmp/Services/XsmpResolver.cpp','src/Xsmp/Publication/Field.cpp'],[('Resolve, GetPath','src/Xsmp/Helper.cpp'),('ResolveAbsolute, ResolveRelative','src/Xsmp/Services/XsmpResolver.cpp')],'objects found, paths, exceptions')
p('P31','The simulator finds and keeps exactly what was added to it',
 'Every model, service and factory added to the simulator is found from then on under its name, type identifier and position, in the order of addition, and is destroyed exactly once, when it is deleted or with the simulator (models before services); the first service of each standard kind stays the one the simulator hands out. An addition in a wrong state, under a name or type identifier in use, of a wrong type or parent, or cut off by lack of memory is refused with the proper error and changes nothing. An instance created through the simulator or a factory has the type, name, description and parent asked for, and a refused creation leaves no instance behind.',
 ['programs','fault_sequences'],'all sequences of additions, deletions, lookups and creations in all states of the simulator, with allocations failing at every point',
 'Partly done registrations appear only when memory runs out or a check refuses in the middle, which no test does.',
 ['src/Xsmp/Simulator.cpp','src/Xsmp/FactoryCollection.cpp','src/Xsmp/Factory.cpp','src/Xsmp/Container.cpp'],[('AddModel, AddService, GetService','src/Xsmp/Simulator.cpp'),('RegisterFactory, GetFactory','src/Xsmp/FactoryCollection.cpp'),('CreateInstance','src/Xsmp/Factory.cpp'),('checks of an addition','src/Xsmp/Container.cpp')],'lists, lookups, standard services, exceptions, destructor calls',[('factories','by type identifier, name and position','src/Xsmp/FactoryCollection.h')])
p('P32','Every refusal says exactly what was refused',
 'A request the library refuses ends with an exception of the kind that belongs to the reason, whose sender is an existing object concerned and whose typed details (names, types, indices, sizes, limits, times, states, identifiers, objects) are those of the refused request and of the object at that moment. The exception says the same however long it is kept, in whichever thread it is read and whatever has become of the texts passed to the request. When memory runs out on the way, either this exception or std::bad_alloc arrives, and the process goes on.',
 ['inputs','schedules','fault_sequences'],'all refused requests to components, containers, references, event sources, fields, types, publications, operations, requests and services, with allocations failing at every point, exceptions kept and handed over between threads, before and during a run',
 'Exceptions are built on rarely taken paths out of many arguments of the same type; tests look at a few of them, at once, and never when memory is short or the request is made from another thread.',
 ['src/Xsmp/Exception.cpp','src/Smp/AnySimple.cpp','src/Xsmp/Publication/Request.cpp','src/Xsmp/Publication/Property.cpp','src/Xsmp/Publication/Field.cpp','include/Xsmp/Field.h','src/Xsmp/Container.cpp','src/Xsmp/Reference.cpp','src/Xsmp/Services/XsmpEventManager.cpp'],[('throwInvalidAnyType, throwInvalidParameterIndex and the other exceptions','src/Xsmp/Exception.cpp'),('Exception (name, description, message, sender)','src/Xsmp/Exception.cpp'),('isValid','src/Xsmp/Publication/Request.cpp')],'kind, sender, details and texts of the exceptions',[('exception','copies of the texts, pointers to the objects','src/Xsmp/Exception.cpp')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
