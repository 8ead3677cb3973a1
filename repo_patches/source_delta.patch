From b5dc7d0d958d71b80f07ba9d422111f5886f160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 01/66] fix: scheduler deadlock between the event lock and the
 execution lock

Execute and ExecuteZulu locked the execution mutex while holding the event
mutex, and locked the event mutex again while holding the execution mutex.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..dcaf852 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -392,6 +392,9 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
+  // always lock the execution before the events: the events are unlocked and
+  // locked again while the execution lock is held
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck{_eventsMutex};
 
   auto &event = _events.at(eventId);
@@ -410,7 +413,6 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
@@ -438,6 +440,7 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck(_eventsMutex);
 
   auto &event = _events.at(eventId);
@@ -447,7 +450,6 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-- 
2.43.0


From ed9220147f5ef73f736deb0e5aa18e1145c2e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 02/66] fix: removing or rescheduling events of the instant
 being executed

The lists of simultaneous and of immediate events were swapped into a local
list before being executed, so that an event removed or rescheduled by one of
them was still executed (std::out_of_range), a removed immediate event stayed
in its list, a removed Zulu event stayed in its table, and the iterator on the
events table was invalidated.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 129 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  28 ++++--
 2 files changed, 89 insertions(+), 68 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index dcaf852..efe447c 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -242,13 +242,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
+  Unschedule(eventId, it->second);
 
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -356,23 +351,9 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second);
   } else {
-
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second);
   }
   _events.erase(it);
 }
@@ -390,14 +371,11 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   return std::numeric_limits<::Smp::Duration>::max();
 }
 
-void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
-
-  // always lock the execution before the events: the events are unlocked and
-  // locked again while the execution lock is held
-  const std::scoped_lock execLck{_execMutex};
-  std::unique_lock lck{_eventsMutex};
+void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
+                            std::unique_lock<std::mutex> &lck) {
 
   auto &event = _events.at(eventId);
+  Unschedule(eventId, event);
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
@@ -474,45 +452,66 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
+  // take the events one by one: the executed events may add events to the list,
+  // and remove or reschedule events that are still in the list
+  while (ExecuteNext(simulationTime)) {
+    // process immediate events posted by this event
+    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
+      return false;
     }
   }
   return true;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+  while (ExecuteNextImmediate()) {
+    if (_simulationStatus == Status::Hold) {
+      return false;
     }
   }
   return true;
 }
 
+bool XsmpScheduler::ExecuteNext(::Smp::Duration simulationTime) {
+  const std::scoped_lock execLck{_execMutex};
+  std::unique_lock lck{_eventsMutex};
+  auto it = _events_table.find(simulationTime);
+  if (it == _events_table.end()) {
+    return false;
+  }
+  Execute(*it->second.begin(), lck);
+  return true;
+}
+
+bool XsmpScheduler::ExecuteNextImmediate() {
+  const std::scoped_lock execLck{_execMutex};
+  std::unique_lock lck{_eventsMutex};
+  if (_immediate_events.empty()) {
+    return false;
+  }
+  Execute(*_immediate_events.begin(), lck);
+  return true;
+}
+
+void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+                               const Event &event) {
+  if (_immediate_events.erase(eventId)) {
+    return;
+  }
+  auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                    ? _zulu_events_table
+                    : _events_table;
+  if (auto it = table.find(event.nextScheduleSimulationTime);
+      it != table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      table.erase(it);
+    }
+  }
+}
+
 void XsmpScheduler::InternalZuluRun() {
 
   std::unique_lock lck(_zuluEventsTableMutex);
@@ -609,11 +608,16 @@ void XsmpScheduler::_EnterExecuting() {
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
-    lck.unlock();
+  while (true) {
+    ::Smp::Duration simulationTime;
+    {
+      const std::scoped_lock lck{_eventsMutex};
+      if (_events_table.empty()) {
+        break;
+      }
+      simulationTime = _events_table.begin()->first;
+    }
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
@@ -622,7 +626,7 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    auto duration = simulationTime - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -649,17 +653,16 @@ void XsmpScheduler::_EnterExecuting() {
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(simulationTime);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents(simulationTime)) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
 
   _load.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..c5eb7d4 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -452,19 +452,37 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
-  /// Execute a specific event
+  /// Execute a specific event that is scheduled. The execution lock must be
+  /// held
   /// @param eventId the event id to execute
-  void Execute(::Smp::Services::EventId eventId);
+  /// @param lck the lock on the events, released during the execution
+  void Execute(::Smp::Services::EventId eventId,
+               std::unique_lock<std::mutex> &lck);
+
+  /// Remove a scheduled event from the scheduling tables. The locks that protect
+  /// the tables must be held
+  /// @param eventId the event id
+  /// @param event the event
+  void Unschedule(::Smp::Services::EventId eventId, const Event &event);
 
   /// Execute a specific event
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Execute the first event scheduled at a simulation time
+  /// @param simulationTime the simulation time
+  /// @return false if there is no such event
+  bool ExecuteNext(::Smp::Duration simulationTime);
+
+  /// Execute the first immediate event
+  /// @return false if there is no such event
+  bool ExecuteNextImmediate();
+
+  /// Execute all events scheduled at a simulation time
+  /// @param simulationTime the simulation time
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents(::Smp::Duration simulationTime);
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From ee92284988df2749f78192a63345e820b5bef305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 03/66] fix: removing or rescheduling Zulu events that are due

The list of due events was swapped into a local list by the Zulu thread: an
event removed or rescheduled before its turn made the thread terminate on
std::out_of_range. The time of a cyclic or rescheduled Zulu event was not
updated.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 53 +++++++++++++----------------
 src/Xsmp/Services/XsmpScheduler.h   |  5 ++-
 2 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index efe447c..9891706 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -292,9 +292,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
+    Unschedule(event, it->second);
 
     if (zuluTime < currentZulu) {
       _events.erase(it);
@@ -303,6 +301,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
     }
 
     it->second.nextScheduleSimulationTime = zuluTime;
+    it->second.time = zuluTime;
     _zulu_events_table.try_emplace(zuluTime).first->second.emplace(event);
   }
   _zuluCv.notify_one();
@@ -416,12 +415,22 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
   }
 }
 
-void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
+void XsmpScheduler::ExecuteZulu() {
 
   const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck(_eventsMutex);
+  std::unique_lock lckZulu{_zuluEventsTableMutex};
 
+  // the event may have been removed or rescheduled in the meantime
+  if (_terminate || _zulu_events_table.empty() ||
+      _zulu_events_table.begin()->first >
+          GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+    return;
+  }
+  auto eventId = *_zulu_events_table.begin()->second.begin();
   auto &event = _events.at(eventId);
+  Unschedule(eventId, event);
+  lckZulu.unlock();
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -445,8 +454,9 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
     }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
+    event.time += event.cycleTime;
     // post the event in the table
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    lckZulu.lock();
     _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
         .first->second.emplace(eventId);
   }
@@ -519,31 +529,16 @@ void XsmpScheduler::InternalZuluRun() {
   while (!_terminate) {
 
     // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
+    while (!_zulu_events_table.empty() &&
+           _zulu_events_table.begin()->first <=
+               GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+      lck.unlock();
+      ExecuteZulu();
+      lck.lock();
+      // stop here if terminate signal received during event execution
+      if (_terminate) {
+        return;
       }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
     }
 
     // wait until next event
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index c5eb7d4..fa6b8d8 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -465,9 +465,8 @@ private:
   /// @param event the event
   void Unschedule(::Smp::Services::EventId eventId, const Event &event);
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void ExecuteZulu(::Smp::Services::EventId eventId);
+  /// Execute the first zulu event if it is due
+  void ExecuteZulu();
 
   /// Execute the first event scheduled at a simulation time
   /// @param simulationTime the simulation time
-- 
2.43.0


From 10f21a5d3ac5174a95afe4305fb86a1edab2b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 04/66] fix: rescheduling an event from its own entry point

---
 src/Xsmp/Services/XsmpScheduler.cpp | 44 ++++++++++++++++++++++-------
 src/Xsmp/Services/XsmpScheduler.h   |  7 +++++
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 9891706..bfb8e07 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -245,9 +245,12 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   Unschedule(eventId, it->second);
 
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
-    _events.erase(it);
+    Remove(it);
     return;
   }
+  if (eventId == _currentEventId) {
+    _currentEventRescheduled = true;
+  }
 
   it->second.nextScheduleSimulationTime = simulationTime;
   it->second.time = time;
@@ -295,10 +298,13 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
     Unschedule(event, it->second);
 
     if (zuluTime < currentZulu) {
-      _events.erase(it);
+      Remove(it);
       // TODO log warning
       return;
     }
+    if (event == _currentEventId) {
+      _currentEventRescheduled = true;
+    }
 
     it->second.nextScheduleSimulationTime = zuluTime;
     it->second.time = zuluTime;
@@ -343,18 +349,24 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
-
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
     Unschedule(event, it->second);
   } else {
     Unschedule(event, it->second);
   }
-  _events.erase(it);
+  Remove(it);
+}
+
+void XsmpScheduler::Remove(
+    std::map<::Smp::Services::EventId, Event>::iterator it) {
+  if (it->first == _currentEventId) {
+    // the event is removed at the end of its execution
+    it->second.repeat = 0;
+    _currentEventRescheduled = false;
+  } else {
+    _events.erase(it);
+  }
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -397,7 +409,13 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
     _currentEventId = -1;
   }
 
-  if (event.repeat == 0) {
+  if (_currentEventRescheduled) {
+    // the event has already been posted in the table by its own execution
+    _currentEventRescheduled = false;
+    if (event.repeat > 0) {
+      event.repeat--;
+    }
+  } else if (event.repeat == 0) {
     // remove the event
     _events.erase(_events.find(eventId));
   } else {
@@ -444,7 +462,13 @@ void XsmpScheduler::ExecuteZulu() {
     _currentEventId = -1;
   }
 
-  if (event.repeat == 0) {
+  if (_currentEventRescheduled) {
+    // the event has already been posted in the table by its own execution
+    _currentEventRescheduled = false;
+    if (event.repeat > 0) {
+      event.repeat--;
+    }
+  } else if (event.repeat == 0) {
     // remove the event
     _events.erase(_events.find(eventId));
   } else {
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index fa6b8d8..ef64a6b 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -407,6 +407,8 @@ private:
 
   // The current EventId that is being executed
   ::Smp::Services::EventId _currentEventId{-1};
+  // true if the current event has been rescheduled during its execution
+  bool _currentEventRescheduled{};
   std::condition_variable _zuluCv;
 
   std::condition_variable _holdCv;
@@ -465,6 +467,11 @@ private:
   /// @param event the event
   void Unschedule(::Smp::Services::EventId eventId, const Event &event);
 
+  /// Remove an event that is not in the scheduling tables. The event that is
+  /// being executed is removed at the end of its execution
+  /// @param it the event
+  void Remove(std::map<::Smp::Services::EventId, Event>::iterator it);
+
   /// Execute the first zulu event if it is due
   void ExecuteZulu();
 
-- 
2.43.0


From 4ce7a491bd081b34d037539d5603cf907a85c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 05/66] fix: simulation time advanced past events posted in the
 meantime

The table of events was read before SMP_PreSimTimeChange and the pacing wait:
an event posted for an earlier time by a subscriber or by another thread was
left behind, nobody woke the wait up, a delay that does not fit in a duration
ended the wait at once, and a hold requested just before the loop was lost.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 170 +++++++++++++---------------
 src/Xsmp/Services/XsmpScheduler.h   |  43 +++----
 2 files changed, 97 insertions(+), 116 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index bfb8e07..0528ee9 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -133,6 +133,7 @@ XsmpScheduler::AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) {
                             ::Smp::Services::TimeKind::TK_SimulationTime});
 
   _immediate_events.emplace(_lastEventId);
+  _holdCv.notify_all();
   return _lastEventId;
 }
 
@@ -142,6 +143,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
                         ::Smp::Duration cycleTime, ::Smp::Int64 repeat,
                         ::Smp::Services::TimeKind kind) {
 
+  const std::scoped_lock lck{_eventsMutex};
   if (auto currentSimulationTime =
           GetSimulator()->GetTimeKeeper()->GetSimulationTime();
       simulationTime < currentSimulationTime) {
@@ -151,13 +153,13 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   if (repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
-  const std::scoped_lock lck{_eventsMutex};
 
   ++_lastEventId;
   _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
                                           cycleTime, repeat, kind});
 
   _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
+  _holdCv.notify_all();
 
   GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
                                    ::Smp::Services::ILogger::LMK_Debug);
@@ -169,6 +171,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
       simulationTime; // TODO check overflow
@@ -180,6 +183,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
@@ -192,6 +196,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
@@ -256,11 +261,13 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   it->second.time = time;
 
   _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
+  _holdCv.notify_all();
 }
 
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
                                            ::Smp::Duration simulationTime) {
 
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
   SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
@@ -268,6 +275,7 @@ void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime();
@@ -277,6 +285,7 @@ void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime();
@@ -383,7 +392,7 @@ void XsmpScheduler::Remove(
 }
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
-                            std::unique_lock<std::mutex> &lck) {
+                            std::unique_lock<std::recursive_mutex> &lck) {
 
   auto &event = _events.at(eventId);
   Unschedule(eventId, event);
@@ -486,47 +495,30 @@ void XsmpScheduler::ExecuteZulu() {
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
-
-  // take the events one by one: the executed events may add events to the list,
-  // and remove or reschedule events that are still in the list
-  while (ExecuteNext(simulationTime)) {
-    // process immediate events posted by this event
-    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-      return false;
-    }
+void XsmpScheduler::ExecuteEvents() {
+  // take the events one by one: the executed events may add events to the
+  // tables, and remove or reschedule events that are still in the tables
+  while (ExecuteNext()) {
   }
-  return true;
-}
-bool XsmpScheduler::ExecuteImmediateEvents() {
-  // execute all events
-  while (ExecuteNextImmediate()) {
-    if (_simulationStatus == Status::Hold) {
-      return false;
-    }
-  }
-  return true;
 }
 
-bool XsmpScheduler::ExecuteNext(::Smp::Duration simulationTime) {
+bool XsmpScheduler::ExecuteNext() {
   const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck{_eventsMutex};
-  auto it = _events_table.find(simulationTime);
-  if (it == _events_table.end()) {
+  if (_simulationStatus == Status::Hold) {
     return false;
   }
-  Execute(*it->second.begin(), lck);
-  return true;
-}
-
-bool XsmpScheduler::ExecuteNextImmediate() {
-  const std::scoped_lock execLck{_execMutex};
-  std::unique_lock lck{_eventsMutex};
-  if (_immediate_events.empty()) {
-    return false;
+  if (!_immediate_events.empty()) {
+    Execute(*_immediate_events.begin(), lck);
+    return true;
   }
-  Execute(*_immediate_events.begin(), lck);
-  return true;
+  if (auto it = _events_table.begin();
+      it != _events_table.end() &&
+      it->first <= GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
+    Execute(*it->second.begin(), lck);
+    return true;
+  }
+  return false;
 }
 
 void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
@@ -602,90 +594,90 @@ void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
 }
 
 void XsmpScheduler::_LeaveExecuting() {
-
-  std::unique_lock lck{_holdMutex};
+  const std::scoped_lock lck{_eventsMutex};
   _simulationStatus = Status::Hold;
-  lck.unlock();
-  _holdCv.notify_one();
+  _holdCv.notify_all();
 }
 
 void XsmpScheduler::_EnterExecuting() {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+  auto *eventManager = GetSimulator()->GetEventManager();
   auto startZuluTime = timeKeeper->GetZuluTime();
-
-  _simulationStatus = Status::Running;
+  auto stepZuluTime = startZuluTime;
 
   _load.clear();
   _speed.clear();
 
-  ::Smp::Duration delay = 0;
+  // advance of the current simulation time over the zulu time
+  double delay = 0.;
 
-  // process all immediate events
-  if (!ExecuteImmediateEvents()) {
-    return; // exit immediately in case of hold
-  }
-  auto *eventManager = GetSimulator()->GetEventManager();
-
-  // execute all events
   while (true) {
-    ::Smp::Duration simulationTime;
-    {
-      const std::scoped_lock lck{_eventsMutex};
-      if (_events_table.empty()) {
+
+    // process all immediate events and all events of the current time
+    ExecuteEvents();
+
+    std::unique_lock lck{_eventsMutex};
+    auto currentTime = timeKeeper->GetSimulationTime();
+    auto nextTime = MaxDuration;
+
+    // TODO handle free running
+    // keep synchronized with zulu time while there is nothing to execute
+    while (_simulationStatus != Status::Hold && _immediate_events.empty()) {
+      nextTime = GetNextScheduledEventTime();
+
+      auto zuluTime = timeKeeper->GetZuluTime();
+      delay -= static_cast<double>(zuluTime - startZuluTime);
+      startZuluTime = zuluTime;
+      auto remaining =
+          delay + static_cast<double>(nextTime - currentTime) / _targetSpeed;
+
+      if (nextTime <= currentTime || remaining < 1.) {
         break;
       }
-      simulationTime = _events_table.begin()->first;
+      // an event may be posted or removed, or Hold may be requested
+      static constexpr double maxWait = 3.6e12;
+      _holdCv.wait_for(lck, std::chrono::nanoseconds{static_cast<::Smp::Int64>(
+                                std::min(remaining, maxWait))});
+    }
+    if (_simulationStatus == Status::Hold) {
+      break;
+    }
+    if (!_immediate_events.empty() || nextTime <= currentTime) {
+      continue;
     }
+    lck.unlock();
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
                        false);
 
+    lck.lock();
     if (_simulationStatus == Status::Hold) {
-      return; // exit immediately if hold is requested
-    }
-    auto duration = simulationTime - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
-             (timeKeeper->GetZuluTime() - startZuluTime);
-
-    auto endZuluTime = timeKeeper->GetZuluTime();
-    // update speed
-    if (duration) {
-      _speed.AddSample(static_cast<double>(endZuluTime - startZuluTime) /
-                       static_cast<double>(duration));
+      break;
     }
-    startZuluTime = endZuluTime;
+    // change the simulation time, but not past an event posted in the meantime
+    nextTime = _immediate_events.empty()
+                   ? std::min(nextTime, GetNextScheduledEventTime())
+                   : timeKeeper->GetSimulationTime();
+    timeKeeper->SetSimulationTime(nextTime);
+    lck.unlock();
 
-    // TODO handle free running
-    //  keep synchronized with zulu time
-    if (delay > 0) {
-
-      if (std::unique_lock lck2{_holdMutex};
-          _holdCv.wait_for(lck2, std::chrono::nanoseconds{delay}, [this] {
-            // continue to wait while Hold is not requested
-            return _simulationStatus == Status::Hold;
-          })) {
-        return; // exit immediately in case of hold
-      }
+    if (auto duration = static_cast<double>(nextTime - currentTime);
+        duration > 0.) {
+      delay += duration / _targetSpeed;
+      // update speed
+      auto zuluTime = timeKeeper->GetZuluTime();
+      _speed.AddSample(static_cast<double>(zuluTime - stepZuluTime) / duration);
+      stepZuluTime = zuluTime;
     }
 
-    // change the simulation time
-    timeKeeper->SetSimulationTime(simulationTime);
-
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
-
-    // process all events (check for eventually events added by
-    // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(simulationTime)) {
-      return; // exit immediately in case of hold
-    }
   }
 
-  _load.clear();
-  _speed.clear();
+  // ready for the next execution
+  _simulationStatus = Status::Running;
 }
 
 void XsmpScheduler::_HoldEvent() {
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index ef64a6b..eb6384e 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -395,8 +395,9 @@ private:
   std::map<::Smp::Duration, EventList> _zulu_events_table;
 
   // Mapping between an EventId and internal data
-  mutable std::mutex _eventsMutex; // protection for _events, _immediate_events,
-                                   // _events_table and _lastEventId
+  mutable std::recursive_mutex
+      _eventsMutex; // protection for _events, _immediate_events,
+                    // _events_table and _lastEventId
   // scheduling table for simu/epoch/mission time events
   std::map<::Smp::Duration, EventList> _events_table;
 
@@ -411,12 +412,12 @@ private:
   bool _currentEventRescheduled{};
   std::condition_variable _zuluCv;
 
-  std::condition_variable _holdCv;
-  std::mutex _holdMutex;
+  // notified when an event is posted or Hold is requested (with _eventsMutex)
+  std::condition_variable_any _holdCv;
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
-  std::atomic<Status> _simulationStatus;
+  std::atomic<Status> _simulationStatus{Status::Running};
   bool _terminate{};
 
   std::mutex _execMutex;
@@ -459,10 +460,10 @@ private:
   /// @param eventId the event id to execute
   /// @param lck the lock on the events, released during the execution
   void Execute(::Smp::Services::EventId eventId,
-               std::unique_lock<std::mutex> &lck);
+               std::unique_lock<std::recursive_mutex> &lck);
 
-  /// Remove a scheduled event from the scheduling tables. The locks that protect
-  /// the tables must be held
+  /// Remove a scheduled event from the scheduling tables. The locks that
+  /// protect the tables must be held
   /// @param eventId the event id
   /// @param event the event
   void Unschedule(::Smp::Services::EventId eventId, const Event &event);
@@ -475,25 +476,13 @@ private:
   /// Execute the first zulu event if it is due
   void ExecuteZulu();
 
-  /// Execute the first event scheduled at a simulation time
-  /// @param simulationTime the simulation time
-  /// @return false if there is no such event
-  bool ExecuteNext(::Smp::Duration simulationTime);
-
-  /// Execute the first immediate event
-  /// @return false if there is no such event
-  bool ExecuteNextImmediate();
-
-  /// Execute all events scheduled at a simulation time
-  /// @param simulationTime the simulation time
-  /// @return true if all events have been executed, false if hold immediate is
-  /// requested and we have to exit
-  bool ExecuteEvents(::Smp::Duration simulationTime);
-
-  /// Execute all immediate events
-  /// @return true if all events have been executed, false if hold immediate is
-  /// requested and we have to exit
-  bool ExecuteImmediateEvents();
+  /// Execute the first immediate event, or the first event that is due
+  /// @return false if there is no such event or if Hold is requested
+  bool ExecuteNext();
+
+  /// Execute all immediate events and all events of the current simulation time
+  /// until Hold is requested
+  void ExecuteEvents();
 
   void DoConnect(const ::Smp::ISimulator *simulator);
   void DoDisconnect();
-- 
2.43.0


From 5cadaef0c3f4f08ad1ea6487a77d40f63ebebe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 06/66] fix: stop event left in the scheduler by a timed run

The event refers to an entry point of the stack frame of Run(duration): when
the run was stopped earlier, the next run executed a destroyed entry point.
---
 src/Xsmp/Simulator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..6e2260c 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -29,6 +29,7 @@
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/IResolver.h>
 #include <Smp/Services/IScheduler.h>
+#include <Smp/Services/InvalidEventId.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Smp/Uuid.h>
 #include <Xsmp/EntryPoint.h>
@@ -322,10 +323,18 @@ void Simulator::Run(::Smp::Duration duration) {
   ::Xsmp::EntryPoint hold{"hold",
                           "call simulator hold after the specified duration",
                           this, [this] { this->Hold(false); }};
-  if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+  if (!_scheduler) {
+    Run();
+    return;
   }
+  const auto holdId = _scheduler->AddSimulationTimeEvent(&hold, duration);
   Run();
+  try {
+    // the execution may have been stopped before the event
+    _scheduler->RemoveEvent(holdId);
+  } catch (const ::Smp::Services::InvalidEventId &) {
+    // the event has been executed
+  }
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
-- 
2.43.0


From fb75dd3a52b732844c2c360fe72b916227f97c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 07/66] fix: repeated, concurrent and cancelled Hold requests

A second deferred Hold aborted the simulation, a deferred Hold followed by an
immediate one stopped the next run, a deferred Hold was not noticed while the
scheduler was waiting, and two concurrent Holds were both carried out.
---
 src/Xsmp/Simulator.cpp | 55 ++++++++++++++++++++++++++++++------------
 src/Xsmp/Simulator.h   | 18 ++++++++++++--
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 6e2260c..09a35e1 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -64,14 +64,8 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       // initialize factories
       _factories{this},
       // Hold Immediately Entry Point
-      _holdImmediately{
-          "HoldImmediately", "", this,
-          [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
-            this->Hold(true);
-          }},
+      _holdImmediately{"HoldImmediately", "", this,
+                       [this] { this->HoldWhenIdle(); }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -247,11 +241,13 @@ void Simulator::Connect() {
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
-  _lastGlobalEventId = eventId;
+  const auto previousEventId = _lastGlobalEventId.exchange(eventId);
   if (_eventManager) {
     _eventManager->Emit(eventId);
   }
-  _lastGlobalEventId = -1;
+  // another thread may have emitted an event in the meantime
+  auto expectedEventId = eventId;
+  _lastGlobalEventId.compare_exchange_strong(expectedEventId, previousEventId);
 }
 
 void Simulator::Initialise() {
@@ -302,6 +298,9 @@ void Simulator::Run() {
   _state = ::Smp::SimulatorStateKind::SSK_Executing;
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
+
+  // wait for the end of a Hold in progress in another thread
+  const std::scoped_lock lck{_holdMutex};
 }
 
 void Simulator::Run(::Smp::Duration duration) {
@@ -339,6 +338,7 @@ void Simulator::Run(::Smp::Duration duration) {
 
 void Simulator::Hold(::Smp::Bool immediate) {
 
+  const std::scoped_lock lck{_holdMutex};
   if (_state != ::Smp::SimulatorStateKind::SSK_Executing ||
       _lastGlobalEventId ==
           ::Smp::Services::IEventManager::SMP_LeaveExecutingId) {
@@ -355,15 +355,40 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
+    CancelDeferredHold();
+
     _state = ::Smp::SimulatorStateKind::SSK_Standby;
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  } else if (_scheduler && !_deferredHold) {
+    _deferredHold = true;
+    _holdEventId = _scheduler->AddSimulationTimeEvent(&_holdImmediately, 0);
+  }
+}
+
+void Simulator::HoldWhenIdle() {
+  const std::scoped_lock lck{_holdMutex};
+  if (!_deferredHold) {
+    return;
+  }
+  if (_scheduler->GetNextScheduledEventTime() <=
+      _timeKeeper->GetSimulationTime()) {
+    // other events of the current simulation time have to be executed before
+    _holdEventId = _scheduler->AddSimulationTimeEvent(&_holdImmediately, 0);
   } else {
-    if (_eventManager) {
-      _eventManager->Subscribe(
-          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-          &_holdImmediately);
-    }
+    Hold(true);
+  }
+}
+
+void Simulator::CancelDeferredHold() {
+  if (!_deferredHold) {
+    return;
+  }
+  _deferredHold = false;
+  try {
+    _scheduler->RemoveEvent(_holdEventId);
+  } catch (const ::Smp::Services::InvalidEventId &) {
+    // the event has been executed
   }
 }
 
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..c3056d1 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -29,7 +29,9 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
+#include <atomic>
 #include <list>
+#include <mutex>
 #include <utility>
 #include <vector>
 
@@ -372,6 +374,12 @@ public:
 private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
+  /// Hold once all events of the current simulation time are executed
+  void HoldWhenIdle();
+
+  /// Remove all that has been set up by a deferred Hold
+  void CancelDeferredHold();
+
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
 
@@ -380,7 +388,7 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
-  ::Smp::Services::EventId _lastGlobalEventId = -1;
+  std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
   Container<::Smp::IModel> _models;
@@ -391,6 +399,11 @@ private:
 
   FactoryCollection _factories;
 
+  // Hold may be called from any thread
+  std::recursive_mutex _holdMutex;
+  // true when a Hold at the end of the current simulation time is requested
+  bool _deferredHold = false;
+  ::Smp::Services::EventId _holdEventId = -1;
   ::Xsmp::EntryPoint _holdImmediately;
 
   // standard services
@@ -402,7 +415,8 @@ private:
   ::Smp::Services::ILogger *_logger = nullptr;
 
   mutable ::Xsmp::Publication::TypeRegistry _typeRegistry;
-  ::Smp::SimulatorStateKind _state = ::Smp::SimulatorStateKind::SSK_Building;
+  std::atomic<::Smp::SimulatorStateKind> _state{
+      ::Smp::SimulatorStateKind::SSK_Building};
 };
 
 } // namespace Xsmp
-- 
2.43.0


From 13d55eed867a4e436bc52c814ce73d85c69d6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 08/66] fix: cycle time of an endless event could be set to
 zero

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0528ee9..e20a117 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -330,7 +330,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 05ac8d0127a56f61b1b0f09ad3c7a4da167fb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 09/66] fix: Zulu events posted or moved before the one waited
 for were late

---
 src/Xsmp/Services/XsmpScheduler.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index e20a117..9d93bde 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -565,18 +565,13 @@ void XsmpScheduler::InternalZuluRun() {
       _zuluCv.wait(
           lck, [this]() { return _terminate || !_zulu_events_table.empty(); });
     } else {
+      // an event with an earlier time may be posted, or the terminate signal
+      // may be received: check the table again after every wake-up
       _zuluCv.wait_for(
-          lck,
-          std::chrono::nanoseconds{
-              std::max(static_cast<::Smp::Duration>(0),
-                       _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
-          });
+          lck, std::chrono::nanoseconds{std::max(
+                   static_cast<::Smp::Duration>(0),
+                   _zulu_events_table.begin()->first -
+                       GetSimulator()->GetTimeKeeper()->GetZuluTime())});
     }
   }
 }
-- 
2.43.0


From 35183a6c4d259604ec9bf8679168c9b4ed9ea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 10/66] fix: hold right after the start of a run made later
 runs refused

---
 src/Xsmp/Simulator.cpp | 18 +++++++++++++++---
 src/Xsmp/Simulator.h   |  4 ++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 09a35e1..b6e7564 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -250,6 +250,19 @@ void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
   _lastGlobalEventId.compare_exchange_strong(expectedEventId, previousEventId);
 }
 
+void Simulator::EnterState(::Smp::SimulatorStateKind state,
+                           ::Smp::Services::EventId eventId) {
+  // another thread may leave the state as soon as it is entered: its events
+  // must not be taken for the previous event
+  const auto previousEventId = _lastGlobalEventId.exchange(eventId);
+  _state = state;
+  if (_eventManager) {
+    _eventManager->Emit(eventId);
+  }
+  auto expectedEventId = eventId;
+  _lastGlobalEventId.compare_exchange_strong(expectedEventId, previousEventId);
+}
+
 void Simulator::Initialise() {
 
   if (_state != ::Smp::SimulatorStateKind::SSK_Standby ||
@@ -295,9 +308,8 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Executing,
+             ::Smp::Services::IEventManager::SMP_EnterExecutingId);
 
   // wait for the end of a Hold in progress in another thread
   const std::scoped_lock lck{_holdMutex};
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index c3056d1..43e72a7 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -374,6 +374,10 @@ public:
 private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
+  /// Change the state and emit the corresponding Enter event
+  void EnterState(::Smp::SimulatorStateKind state,
+                  ::Smp::Services::EventId eventId);
+
   /// Hold once all events of the current simulation time are executed
   void HoldWhenIdle();
 
-- 
2.43.0


From b20aa278f744c2ad5341a8276a9ffd2a8eefbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 11/66] fix: abort undone by the operation in progress,
 announced before it took place

---
 src/Xsmp/Simulator.cpp | 97 +++++++++++++++++++++++++++---------------
 src/Xsmp/Simulator.h   |  3 +-
 2 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index b6e7564..eda7639 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -225,8 +225,11 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Connecting,
+                  ::Smp::SimulatorStateKind::SSK_Initialising,
+                  ::Smp::Services::IEventManager::SMP_EnterInitialisingId)) {
+    return;
+  }
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
@@ -236,8 +239,9 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Initialising,
+             ::Smp::SimulatorStateKind::SSK_Standby,
+             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
@@ -250,17 +254,20 @@ void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
   _lastGlobalEventId.compare_exchange_strong(expectedEventId, previousEventId);
 }
 
-void Simulator::EnterState(::Smp::SimulatorStateKind state,
+bool Simulator::EnterState(::Smp::SimulatorStateKind from,
+                           ::Smp::SimulatorStateKind to,
                            ::Smp::Services::EventId eventId) {
   // another thread may leave the state as soon as it is entered: its events
   // must not be taken for the previous event
   const auto previousEventId = _lastGlobalEventId.exchange(eventId);
-  _state = state;
-  if (_eventManager) {
+  // the simulation may have been aborted in the meantime
+  const auto changed = _state.compare_exchange_strong(from, to);
+  if (changed && _eventManager) {
     _eventManager->Emit(eventId);
   }
   auto expectedEventId = eventId;
   _lastGlobalEventId.compare_exchange_strong(expectedEventId, previousEventId);
+  return changed;
 }
 
 void Simulator::Initialise() {
@@ -278,8 +285,11 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Initialising,
+                  ::Smp::Services::IEventManager::SMP_EnterInitialisingId)) {
+    return;
+  }
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
@@ -288,8 +298,9 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Initialising,
+             ::Smp::SimulatorStateKind::SSK_Standby,
+             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
 
@@ -308,8 +319,11 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  EnterState(::Smp::SimulatorStateKind::SSK_Executing,
-             ::Smp::Services::IEventManager::SMP_EnterExecutingId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Executing,
+                  ::Smp::Services::IEventManager::SMP_EnterExecutingId)) {
+    return;
+  }
 
   // wait for the end of a Hold in progress in another thread
   const std::scoped_lock lck{_holdMutex};
@@ -369,9 +383,9 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     CancelDeferredHold();
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    EnterState(::Smp::SimulatorStateKind::SSK_Executing,
+               ::Smp::SimulatorStateKind::SSK_Standby,
+               ::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else if (_scheduler && !_deferredHold) {
     _deferredHold = true;
     _holdEventId = _scheduler->AddSimulationTimeEvent(&_holdImmediately, 0);
@@ -452,18 +466,20 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Storing,
+                  ::Smp::Services::IEventManager::SMP_EnterStoringId)) {
+    return;
+  }
 
   StorageWriter writer{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Store(this, &writer);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Storing,
+             ::Smp::SimulatorStateKind::SSK_Standby,
+             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -516,16 +532,19 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Restoring,
+                  ::Smp::Services::IEventManager::SMP_EnterRestoringId)) {
+    return;
+  }
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Restoring,
+             ::Smp::SimulatorStateKind::SSK_Standby,
+             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
@@ -542,8 +561,11 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Reconnecting,
+                  ::Smp::Services::IEventManager::SMP_EnterReconnectingId)) {
+    return;
+  }
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
     recursive_action(composite, [this](::Smp::IComponent *cmp) {
@@ -558,8 +580,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterState(::Smp::SimulatorStateKind::SSK_Reconnecting,
+             ::Smp::SimulatorStateKind::SSK_Standby,
+             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::Exit() {
@@ -577,8 +600,11 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
+  if (!EnterState(::Smp::SimulatorStateKind::SSK_Standby,
+                  ::Smp::SimulatorStateKind::SSK_Exiting,
+                  ::Smp::Services::IEventManager::SMP_EnterExitingId)) {
+    return;
+  }
 
   // Disconnect all components properly
   recursive_action(this, [](::Smp::IComponent *cmp) {
@@ -590,8 +616,11 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
+  if (_state.exchange(::Smp::SimulatorStateKind::SSK_Aborting) ==
+      ::Smp::SimulatorStateKind::SSK_Aborting) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 43e72a7..2f015a2 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -375,7 +375,8 @@ private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
   /// Change the state and emit the corresponding Enter event
-  void EnterState(::Smp::SimulatorStateKind state,
+  /// @return false if the simulation has been aborted
+  bool EnterState(::Smp::SimulatorStateKind from, ::Smp::SimulatorStateKind to,
                   ::Smp::Services::EventId eventId);
 
   /// Hold once all events of the current simulation time are executed
-- 
2.43.0


From bacb1d2361f05f1272a49f09222f151698bf815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 12/66] fix: execution went on after an abort

---
 src/Xsmp/Services/XsmpScheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 9d93bde..241a251 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // stop the execution as well when the simulation is aborted
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
-- 
2.43.0


From f0426e722dc37ed5221c59bee2b57960cf8af7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 13/66] fix: event posted by each SMP_PreSimTimeChange
 subscriber stopped the time

---
 src/Xsmp/Services/XsmpScheduler.cpp | 32 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 241a251..20635f6 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -609,6 +609,8 @@ void XsmpScheduler::_EnterExecuting() {
 
   // advance of the current simulation time over the zulu time
   double delay = 0.;
+  // true between SMP_PreSimTimeChange and SMP_PostSimTimeChange
+  bool announced = false;
 
   while (true) {
 
@@ -644,22 +646,21 @@ void XsmpScheduler::_EnterExecuting() {
     if (!_immediate_events.empty() || nextTime <= currentTime) {
       continue;
     }
-    lck.unlock();
-
-    // notify that simulation time will be changed
-    eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                       false);
-
-    lck.lock();
-    if (_simulationStatus == Status::Hold) {
-      break;
+    if (!announced) {
+      lck.unlock();
+      // notify that simulation time will be changed
+      eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+                         false);
+      announced = true;
+      delay +=
+          static_cast<double>(timeKeeper->GetSimulationTime() - currentTime) /
+          _targetSpeed;
+      // events may have been posted in the meantime
+      continue;
     }
-    // change the simulation time, but not past an event posted in the meantime
-    nextTime = _immediate_events.empty()
-                   ? std::min(nextTime, GetNextScheduledEventTime())
-                   : timeKeeper->GetSimulationTime();
     timeKeeper->SetSimulationTime(nextTime);
     lck.unlock();
+    announced = false;
 
     if (auto duration = static_cast<double>(nextTime - currentTime);
         duration > 0.) {
@@ -674,6 +675,11 @@ void XsmpScheduler::_EnterExecuting() {
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
   }
 
+  if (announced) {
+    // held before the time could be changed
+    eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
+  }
+
   // ready for the next execution
   _simulationStatus = Status::Running;
 }
-- 
2.43.0


From 4852d807c4f2d0faa5198d0971eb15723e17e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 14/66] fix: aborted simulator destroyed under its running
 wall-clock thread

---
 src/Xsmp/Simulator.cpp | 15 +++++++++++++--
 src/Xsmp/Simulator.h   |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index eda7639..20998a5 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -118,6 +118,8 @@ Simulator::~Simulator() {
   if (_state == ::Smp::SimulatorStateKind::SSK_Standby) {
     Exit();
   }
+  // components are still connected if the simulation has been aborted
+  Disconnect();
   // finalise the libraries in reverse order
   while (!_libraries.empty()) {
     const auto &[name, handle] = _libraries.back();
@@ -607,11 +609,20 @@ void Simulator::Exit() {
   }
 
   // Disconnect all components properly
-  recursive_action(this, [](::Smp::IComponent *cmp) {
+  Disconnect();
+}
+
+void Simulator::Disconnect() {
+  auto disconnect = [](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Connected) {
       cmp->Disconnect();
     }
-  });
+  };
+  // its thread uses the other components: it has to be stopped before
+  if (_scheduler) {
+    disconnect(_scheduler);
+  }
+  recursive_action(this, disconnect);
 }
 
 void Simulator::Abort() {
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 2f015a2..8641854 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -379,6 +379,9 @@ private:
   bool EnterState(::Smp::SimulatorStateKind from, ::Smp::SimulatorStateKind to,
                   ::Smp::Services::EventId eventId);
 
+  /// Disconnect all components
+  void Disconnect();
+
   /// Hold once all events of the current simulation time are executed
   void HoldWhenIdle();
 
-- 
2.43.0


From 54fd23a47118fd27e87c34508c131bf332cfeab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 15/66] fix: malformed logger configuration crashed the
 simulation

---
 src/Xsmp/Services/XsmpLogger.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..1ce9026 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -199,9 +199,9 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [&stream, this](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
         value.to_stream(stream, fmt);
@@ -210,7 +210,7 @@ public:
 
     auto it = _pattern.begin();
     while (it != _pattern.end()) {
-      if (*it == '%') {
+      if (*it == '%' && it + 1 != _pattern.end()) {
         ++it;
         switch (*it) {
         case 'p':
@@ -284,12 +284,15 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) noexcept {
     std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
+    // the formatting ends with the pattern if it is not closed
+    if (it + 1 != end && it[1] == '{') {
+      for (++it; it + 1 != end && it[1] != '}'; ++it) {
+        formatting.push_back(it[1]);
+      }
+      if (it + 1 != end) {
         ++it;
       }
     }
@@ -315,7 +318,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From bd072ad5c1c9111f7ad68e4ecfa23829cb4ea47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 16/66] fix: log write error ended the simulation

---
 src/Xsmp/Services/XsmpLogger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 1ce9026..a7c3e8e 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -42,6 +42,7 @@
 #include <optional>
 #include <queue>
 #include <regex>
+#include <sstream>
 #include <string>
 #include <string_view>
 #include <thread>
@@ -356,7 +357,12 @@ public:
 protected:
   virtual void DoAppend(const LogEntry &entry) = 0;
   void Append(std::ostream &stream, const LogEntry &entry) const {
-    _layout->Append(stream, entry);
+    // dates imbue the stream they are written to, which makes a file stream
+    // throw after a write error
+    std::ostringstream record;
+    _layout->Append(record, entry);
+    stream << record.str();
+    stream.flush();
   }
 
 private:
-- 
2.43.0


From fa2c623751f69be9691d3a66cce38548b386464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 17/66] fix: no component was stored or restored

Store and Restore visited the containers of the simulator but not the
components in them, so that neither services nor models were stored.
---
 src/Xsmp/Simulator.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 20998a5..cc78c8d 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -450,6 +450,13 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    if (const auto *components = container->GetComponents()) {
+      for (auto *component : *components) {
+        Store(component, writer);
+      }
+    }
+  }
 }
 } // namespace
 static constexpr ::Smp::String8 PERSIST_FILENAME = "simulator.bin";
@@ -517,6 +524,13 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    if (const auto *components = container->GetComponents()) {
+      for (auto *component : *components) {
+        Restore(component, reader);
+      }
+    }
+  }
 }
 } // namespace
 void Simulator::Restore(::Smp::String8 filename) {
-- 
2.43.0


From 0a4482a620177716a8ecc91d6f1ac0cc2337e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 18/66] fix: wide strings were stored with half of their
 characters or less

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 974ac8f4bba7a8835b81426d8aa0528e8eef93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 19/66] fix: Zulu events and the event in execution were not
 stored

---
 src/Xsmp/Services/XsmpScheduler.cpp | 59 ++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 20635f6..64656c7 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -418,6 +418,10 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
     lck.lock();
+    if (_currentEventId != eventId) {
+      // another state has been restored during the execution
+      return;
+    }
     _currentEventId = -1;
   }
 
@@ -471,6 +475,10 @@ void XsmpScheduler::ExecuteZulu() {
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
     lck.lock();
+    if (_currentEventId != eventId) {
+      // another state has been restored during the execution
+      return;
+    }
     _currentEventId = -1;
   }
 
@@ -580,15 +588,54 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  // nothing is changed if the state cannot be restored
+  decltype(_events) events;
+  decltype(_events_table) eventsTable;
+  decltype(_zulu_events_table) zuluEventsTable;
+  decltype(_immediate_events) immediateEvents;
+  ::Smp::Services::EventId lastEventId;
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, eventsTable,
+                           zuluEventsTable, immediateEvents, lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    _events = std::move(events);
+    _events_table = std::move(eventsTable);
+    _zulu_events_table = std::move(zuluEventsTable);
+    _immediate_events = std::move(immediateEvents);
+    _lastEventId = lastEventId;
+    // a zulu event in execution does not belong to the restored state
+    _currentEventId = -1;
+    _currentEventRescheduled = false;
+  }
+  _zuluCv.notify_one();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Store(GetSimulator(), this, writer, _events, _events_table,
-                         _immediate_events, _lastEventId);
+  const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+  auto events = _events;
+  auto eventsTable = _events_table;
+  auto zuluEventsTable = _zulu_events_table;
+  // an event in execution is stored as it will be after its execution
+  if (auto it = events.find(_currentEventId); it != events.end()) {
+    auto &event = it->second;
+    if (!_currentEventRescheduled && event.repeat == 0) {
+      events.erase(it);
+    } else {
+      if (event.repeat > 0) {
+        event.repeat--;
+      }
+      if (!_currentEventRescheduled) {
+        event.nextScheduleSimulationTime += event.cycleTime;
+        event.time += event.cycleTime;
+        auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                          ? zuluEventsTable
+                          : eventsTable;
+        table[event.nextScheduleSimulationTime].emplace(it->first);
+      }
+    }
+  }
+  ::Xsmp::Persist::Store(GetSimulator(), this, writer, events, eventsTable,
+                         zuluEventsTable, _immediate_events, _lastEventId);
 }
 
 void XsmpScheduler::_LeaveExecuting() {
-- 
2.43.0


From 1c342f2dee4a5e6a47cb3d972ce7343a94869e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 20/66] fix: incomplete, truncated or foreign state files were
 accepted, and a failed store or restore left the simulator in its state

---
 include/Xsmp/Persist/SmpIObject.h |  5 +++
 src/Xsmp/Simulator.cpp            | 55 +++++++++++++++++++++++--------
 src/Xsmp/StorageWriter.cpp        |  8 +++++
 src/Xsmp/StorageWriter.h          |  4 +++
 4 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/include/Xsmp/Persist/SmpIObject.h b/include/Xsmp/Persist/SmpIObject.h
index 71fcf25..f3d088a 100644
--- a/include/Xsmp/Persist/SmpIObject.h
+++ b/include/Xsmp/Persist/SmpIObject.h
@@ -17,6 +17,7 @@
 
 #include <Smp/ISimulator.h>
 #include <Smp/Services/IResolver.h>
+#include <Xsmp/Exception.h>
 #include <Xsmp/Helper.h>
 #include <Xsmp/Persist.h>
 #include <string>
@@ -37,6 +38,10 @@ struct Helper<T *, std::enable_if_t<std::is_base_of_v<::Smp::IObject, T>>> {
     ::Xsmp::Persist::Restore(simulator, reader, path);
     value = dynamic_cast<T *>(
         simulator->GetResolver()->ResolveAbsolute(path.c_str()));
+    if (!value && path != ::Xsmp::Helper::GetPath(nullptr)) {
+      ::Xsmp::Exception::throwCannotRestore(simulator,
+                                            "Cannot resolve " + path);
+    }
   }
 };
 
diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index cc78c8d..664b772 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -420,7 +420,7 @@ void Simulator::CancelDeferredHold() {
   }
 }
 
-enum class PersistKind { PERSIST, COMPONENT, COMPOSITE, CONTAINER, FIELD };
+enum class PersistKind { PERSIST, COMPONENT, COMPOSITE, CONTAINER, FIELD, END };
 namespace {
 void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
   if (auto *persist = dynamic_cast<::Smp::IPersist *>(obj)) {
@@ -452,6 +452,8 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
   }
   if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
     if (const auto *components = container->GetComponents()) {
+      ::Smp::UInt64 size = components->size();
+      writer->Store(&size, sizeof(size));
       for (auto *component : *components) {
         Store(component, writer);
       }
@@ -481,14 +483,26 @@ void Simulator::Store(::Smp::String8 filename) {
     return;
   }
 
-  StorageWriter writer{filename, PERSIST_FILENAME, this};
+  auto leaveStoring = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
+    EnterState(::Smp::SimulatorStateKind::SSK_Storing,
+               ::Smp::SimulatorStateKind::SSK_Standby,
+               ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageWriter writer{filename, PERSIST_FILENAME, this};
 
-  ::Xsmp::Store(this, &writer);
+    ::Xsmp::Store(this, &writer);
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  EnterState(::Smp::SimulatorStateKind::SSK_Storing,
-             ::Smp::SimulatorStateKind::SSK_Standby,
-             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    PersistKind kind = PersistKind::END;
+    writer.Store(&kind, sizeof(PersistKind));
+    writer.Close();
+  } catch (...) {
+    // the simulation can go on without having been stored
+    leaveStoring();
+    throw;
+  }
+  leaveStoring();
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -526,6 +540,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
   }
   if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
     if (const auto *components = container->GetComponents()) {
+      ::Smp::UInt64 size = 0;
+      reader->Restore(&size, sizeof(size));
+      if (size != components->size()) {
+        ::Xsmp::Exception::throwCannotRestore(obj, "Wrong component count");
+      }
       for (auto *component : *components) {
         Restore(component, reader);
       }
@@ -553,14 +572,24 @@ void Simulator::Restore(::Smp::String8 filename) {
                   ::Smp::Services::IEventManager::SMP_EnterRestoringId)) {
     return;
   }
-  StorageReader reader{filename, PERSIST_FILENAME, this};
+  auto leaveRestoring = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
+    EnterState(::Smp::SimulatorStateKind::SSK_Restoring,
+               ::Smp::SimulatorStateKind::SSK_Standby,
+               ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageReader reader{filename, PERSIST_FILENAME, this};
 
-  ::Xsmp::Restore(this, &reader);
+    ::Xsmp::Restore(this, &reader);
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  EnterState(::Smp::SimulatorStateKind::SSK_Restoring,
-             ::Smp::SimulatorStateKind::SSK_Standby,
-             ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    check(this, &reader, PersistKind::END);
+  } catch (...) {
+    // another state can be restored
+    leaveRestoring();
+    throw;
+  }
+  leaveRestoring();
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..381db42 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -62,6 +62,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Close() {
+  _os.close();
+  if (_os.fail()) {
+    ::Xsmp::Exception::throwCannotStore(_object,
+                                        "Writing error on output operation");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..0da6300 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,10 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Write all the stored data to the file and close it.
+  /// @throws  Smp::CannotStore if the data cannot be written
+  void Close();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From 114fd094abd701f86e05ab925d2f4cb0097e9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 21/66] fix: services were left half restored by a failed
 restore

---
 src/Xsmp/Services/XsmpEventManager.cpp | 12 +++++++++---
 src/Xsmp/Services/XsmpLogger.cpp       |  6 ++++--
 src/Xsmp/Services/XsmpTimeKeeper.cpp   | 12 +++++++++---
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..2a48378 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -199,12 +199,18 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
-                           _subscriptions.write().get());
+  // nothing is changed if the state cannot be restored
+  auto events = _events.read().get();
+  auto subscriptions = _subscriptions.read().get();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, subscriptions);
+
+  auto eventsAccess = _events.write();
+  eventsAccess.get() = std::move(events);
+  _subscriptions.write().get() = std::move(subscriptions);
   // rebuild _ids map from _events
   auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index a7c3e8e..818c571 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -616,8 +616,10 @@ void XsmpLogger::Log(const ::Smp::IObject *sender, ::Smp::String8 message,
 }
 
 void XsmpLogger::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader,
-                           _logMessageKinds.write().get());
+  // nothing is changed if the state cannot be restored
+  auto logMessageKinds = _logMessageKinds.read().get();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, logMessageKinds);
+  _logMessageKinds.write().get() = std::move(logMessageKinds);
 }
 
 void XsmpLogger::Store(::Smp::IStorageWriter *writer) {
diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2694531..416152e 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -93,9 +93,15 @@ void XsmpTimeKeeper::SetSimulationTime(::Smp::Duration simulationTime) {
 }
 
 void XsmpTimeKeeper::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(
-      GetSimulator(), this, reader, _simulationTime.write().get(),
-      _missionStartTime.write().get(), _epochStart.write().get());
+  // nothing is changed if the state cannot be restored
+  auto simulationTime = _simulationTime.read().get();
+  auto missionStartTime = _missionStartTime.read().get();
+  auto epochStart = _epochStart.read().get();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, simulationTime,
+                           missionStartTime, epochStart);
+  _simulationTime.write().get() = simulationTime;
+  _missionStartTime.write().get() = missionStartTime;
+  _epochStart.write().get() = epochStart;
 }
 
 void XsmpTimeKeeper::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From cb9b1fde9eec7a76f5e5d6e69ffd7fa963ffb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 22/66] fix: Reconnect ignored its root and did not announce
 SMP_LeaveReconnecting

---
 src/Xsmp/Simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 664b772..72c6901 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -612,8 +612,8 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
 
-  if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
-    recursive_action(composite, [this](::Smp::IComponent *cmp) {
+  if (root) {
+    recursive_action(root, [this](::Smp::IComponent *cmp) {
       if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
         cmp->Publish(CreatePublication(cmp));
       }
@@ -625,6 +625,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
   EnterState(::Smp::SimulatorStateKind::SSK_Reconnecting,
              ::Smp::SimulatorStateKind::SSK_Standby,
              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
-- 
2.43.0


From ccf8ed24d9ca4b7fc4ec05150bb357030b99f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 23/66] fix: stop events of an execution in progress were
 stored

---
 src/Xsmp/Simulator.cpp | 23 +++++++++++++++--------
 src/Xsmp/Simulator.h   |  5 +++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 72c6901..0ae8c6f 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -42,6 +42,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 extern "C" ::Smp::ISimulator *createSimulator(::Smp::String8 name,
@@ -354,14 +355,11 @@ void Simulator::Run(::Smp::Duration duration) {
     Run();
     return;
   }
-  const auto holdId = _scheduler->AddSimulationTimeEvent(&hold, duration);
+  _stopEventId = _scheduler->AddSimulationTimeEvent(&hold, duration);
   Run();
-  try {
-    // the execution may have been stopped before the event
-    _scheduler->RemoveEvent(holdId);
-  } catch (const ::Smp::Services::InvalidEventId &) {
-    // the event has been executed
-  }
+  // the execution may have been aborted
+  const std::scoped_lock lck{_holdMutex};
+  RemoveEvent(_stopEventId);
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
@@ -383,7 +381,9 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
+    // the events of this execution do not belong to the state of the simulation
     CancelDeferredHold();
+    RemoveEvent(_stopEventId);
 
     EnterState(::Smp::SimulatorStateKind::SSK_Executing,
                ::Smp::SimulatorStateKind::SSK_Standby,
@@ -413,8 +413,15 @@ void Simulator::CancelDeferredHold() {
     return;
   }
   _deferredHold = false;
+  RemoveEvent(_holdEventId);
+}
+
+void Simulator::RemoveEvent(::Smp::Services::EventId &event) {
+  if (event == -1) {
+    return;
+  }
   try {
-    _scheduler->RemoveEvent(_holdEventId);
+    _scheduler->RemoveEvent(std::exchange(event, -1));
   } catch (const ::Smp::Services::InvalidEventId &) {
     // the event has been executed
   }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 8641854..cbc0fd0 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -388,6 +388,9 @@ private:
   /// Remove all that has been set up by a deferred Hold
   void CancelDeferredHold();
 
+  // remove an event, unless it has already been executed
+  void RemoveEvent(::Smp::Services::EventId &event);
+
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
 
@@ -412,6 +415,8 @@ private:
   // true when a Hold at the end of the current simulation time is requested
   bool _deferredHold = false;
   ::Smp::Services::EventId _holdEventId = -1;
+  // the event that stops the execution after the duration asked for
+  ::Smp::Services::EventId _stopEventId = -1;
   ::Xsmp::EntryPoint _holdImmediately;
 
   // standard services
-- 
2.43.0


From 5ccd40c9b8105a6b2d34d4d0453179902905a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 24/66] fix: SMP_EnterExecuting subscribers were called after
 the execution

---
 src/Xsmp/Services/XsmpScheduler.cpp | 12 ++++++++++++
 src/Xsmp/Services/XsmpScheduler.h   |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 64656c7..e0071ae 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -89,6 +89,8 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
 
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_LeaveStandbyId, &_leaveStandby);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
   // stop the execution as well when the simulation is aborted
@@ -638,6 +640,16 @@ void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
                          zuluEventsTable, _immediate_events, _lastEventId);
 }
 
+void XsmpScheduler::_LeaveStandby() {
+  // the execution takes place in SMP_EnterExecuting: it has to be announced to
+  // all the other subscribers before
+  auto *eventManager = GetSimulator()->GetEventManager();
+  eventManager->Unsubscribe(
+      ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
+  eventManager->Subscribe(::Smp::Services::IEventManager::SMP_EnterExecutingId,
+                          &EnterExecuting);
+}
+
 void XsmpScheduler::_LeaveExecuting() {
   const std::scoped_lock lck{_eventsMutex};
   _simulationStatus = Status::Hold;
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index eb6384e..9fac62e 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -373,6 +373,12 @@ public:
 
 private:
   friend class ::Xsmp::Component::Helper;
+
+  /// called before any change of the simulator state from Standby
+  void _LeaveStandby();
+  ::Xsmp::EntryPoint _leaveStandby{"LeaveStandby", "", this,
+                                   [this] { _LeaveStandby(); }};
+
   // this structure represent an event in the scheduling table
   struct Event {
     const ::Smp::IEntryPoint *entryPoint;       // the entry point to call
-- 
2.43.0


From 5e313ac9e29caae8005ccbed487b13ba393b02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 25/66] fix: Abort after Exit, or Exit from a subscriber within
 an execution, crashed

---
 src/Xsmp/Services/XsmpEventManager.cpp | 9 +++++++--
 src/Xsmp/Services/XsmpScheduler.cpp    | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 2a48378..f92e608 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -183,7 +183,12 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
   const auto &event_name = GetEventName(event);
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  auto *simulator = GetSimulator();
+  if (!simulator) {
+    // disconnected like the subscribers: the simulator has been exited
+    return;
+  }
+  if (auto *logger = simulator->GetLogger()) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
   auto subscriptionAccess = _subscriptions.read();
@@ -193,7 +198,7 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
     auto entryPoints = it->second;
     subscriptionAccess.unlock();
     for (const auto *entry_point : entryPoints) {
-      ::Xsmp::Helper::SafeExecute(GetSimulator(), entry_point);
+      ::Xsmp::Helper::SafeExecute(simulator, entry_point);
     }
   }
 }
diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index e0071ae..66de51d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -658,6 +658,11 @@ void XsmpScheduler::_LeaveExecuting() {
 
 void XsmpScheduler::_EnterExecuting() {
 
+  if (!GetSimulator()) {
+    // held and exited by another subscriber
+    _simulationStatus = Status::Running;
+    return;
+  }
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
   auto *eventManager = GetSimulator()->GetEventManager();
   auto startZuluTime = timeKeeper->GetZuluTime();
-- 
2.43.0


From 056c9cb97b550ab868ad3bfa4665f8251c9aaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 26/66] fix: DoConfigure was called twice, inherited Do
 functions were called again

---
 include/Xsmp/ComponentHelper.h | 55 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..7c47bc7 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -30,7 +30,7 @@ public:
   template <typename T, typename U>
   static void Publish(U *cmp, ::Smp::IPublication *receiver) {
     static_assert(std::is_base_of_v<U, T>);
-    if constexpr (hasDoPublish<T>::value) {
+    if constexpr (hasDoPublish<T, U>::value) {
 
       if constexpr (std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *>) {
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
@@ -49,8 +49,7 @@ public:
   static void Configure(U *cmp, ::Smp::Services::ILogger *logger,
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
-    if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
+    if constexpr (hasDoConfigure<T, U>::value) {
 
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
@@ -87,7 +86,7 @@ public:
   template <typename T, typename U>
   static void Connect(U *cmp, ::Smp::ISimulator *simulator) {
     static_assert(std::is_base_of_v<U, T>);
-    if constexpr (hasDoConnect<T>::value) {
+    if constexpr (hasDoConnect<T, U>::value) {
       if constexpr (std::is_invocable_v<decltype(&T::DoConnect), T *,
                                         ::Smp::ISimulator *>) {
         static_cast<T *>(cmp)->DoConnect(simulator);
@@ -104,7 +103,7 @@ public:
 
   template <typename T, typename U> static void Disconnect(U *cmp) {
     static_assert(std::is_base_of_v<U, T>);
-    if constexpr (hasDoDisconnect<T>::value) {
+    if constexpr (hasDoDisconnect<T, U>::value) {
       if constexpr (std::is_invocable_v<decltype(&T::DoDisconnect), T *>) {
         static_cast<T *>(cmp)->DoDisconnect();
       }
@@ -115,29 +114,41 @@ public:
   }
 
 private:
-  template <class, class = void> struct hasDoPublish : std::false_type {};
+  // the functions inherited from a base of the generated class U are called by
+  // the generated base class
+  template <class U, class M> struct isOwn : std::true_type {};
+
+  template <class U, class R, class C>
+  struct isOwn<U, R C::*>
+      : std::bool_constant<std::is_same_v<C, U> || !std::is_base_of_v<C, U>> {};
+
+  template <class, class, class = void>
+  struct hasDoPublish : std::false_type {};
 
-  template <class T>
-  struct hasDoPublish<T, std::void_t<decltype(&T::DoPublish)>>
-      : std::true_type {};
+  template <class T, class U>
+  struct hasDoPublish<T, U, std::void_t<decltype(&T::DoPublish)>>
+      : isOwn<U, decltype(&T::DoPublish)> {};
 
-  template <class, class = void> struct hasDoConfigure : std::false_type {};
+  template <class, class, class = void>
+  struct hasDoConfigure : std::false_type {};
 
-  template <class T>
-  struct hasDoConfigure<T, std::void_t<decltype(&T::DoConfigure)>>
-      : std::true_type {};
+  template <class T, class U>
+  struct hasDoConfigure<T, U, std::void_t<decltype(&T::DoConfigure)>>
+      : isOwn<U, decltype(&T::DoConfigure)> {};
 
-  template <class T, class = void> struct hasDoConnect : std::false_type {};
+  template <class, class, class = void>
+  struct hasDoConnect : std::false_type {};
 
-  template <class T>
-  struct hasDoConnect<T, std::void_t<decltype(&T::DoConnect)>>
-      : std::true_type {};
+  template <class T, class U>
+  struct hasDoConnect<T, U, std::void_t<decltype(&T::DoConnect)>>
+      : isOwn<U, decltype(&T::DoConnect)> {};
 
-  template <class, class = void> struct hasDoDisconnect : std::false_type {};
+  template <class, class, class = void>
+  struct hasDoDisconnect : std::false_type {};
 
-  template <class T>
-  struct hasDoDisconnect<T, std::void_t<decltype(&T::DoDisconnect)>>
-      : std::true_type {};
+  template <class T, class U>
+  struct hasDoDisconnect<T, U, std::void_t<decltype(&T::DoDisconnect)>>
+      : isOwn<U, decltype(&T::DoDisconnect)> {};
 };
 
 } // namespace Xsmp
-- 
2.43.0


From 5435f156b88f1c3fe651a1f1fc9396e091acb4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 27/66] fix: no child could be added to a published component

---
 src/Xsmp/Container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..f5b8986 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -107,7 +107,7 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From d27a653f5b2304245610581d7098418a61a19ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 28/66] fix: a container whose component deletes a sibling
 removed the wrong element

---
 include/Xsmp/Container.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Xsmp/Container.h b/include/Xsmp/Container.h
index 320827a..e706e99 100644
--- a/include/Xsmp/Container.h
+++ b/include/Xsmp/Container.h
@@ -292,12 +292,15 @@ public:
   /// @throws  Smp::CannotDelete
   /// @throws  Smp::NotContained
   void DeleteComponent(::Smp::IComponent *component) override {
-    if (auto it = find(dynamic_cast<T *>(component)); it != end()) {
-      AbstractContainer::DeleteComponent(component);
-      _vector.erase(it);
-    } else {
+    auto *casted = dynamic_cast<T *>(component);
+    if (find(casted) == end()) {
       ::Xsmp::Exception::throwNotContained(this, component);
     }
+    AbstractContainer::DeleteComponent(component);
+    // the deletion of the component may have changed the container
+    if (auto it = find(casted); it != end()) {
+      _vector.erase(it);
+    }
   }
   /// Query for the number of components in the collection.
   /// @return  Current number of components in the collection.
-- 
2.43.0


From f798184c5bbc53fa87c31d10bb4b2e1ffd4534e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 29/66] fix: a delegate collection allowing duplicates did not
 compile

---
 include/Xsmp/Collection.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Xsmp/Collection.h b/include/Xsmp/Collection.h
index 583d5fa..6574e0a 100644
--- a/include/Xsmp/Collection.h
+++ b/include/Xsmp/Collection.h
@@ -262,7 +262,9 @@ public:
   /// @return Instance with given name, or nullptr if no such instance exists.
   T *at(::Smp::String8 name) const override {
     auto *value = _delegate->at(name);
-    return value ? value : ::Xsmp::detail::AbstractCollection<T>::at(name);
+    return value ? value
+                 : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                       name);
   }
 
   /// Retrieve element by position in the sequence (based on order of
@@ -272,20 +274,22 @@ public:
   T *at(size_t index) const override {
     return index < _delegate->size()
                ? _delegate->at(index)
-               : ::Xsmp::detail::AbstractCollection<T>::at(index -
-                                                           _delegate->size());
+               : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                     index - _delegate->size());
   }
 
   /// Get the number of objects in the sequence.
   /// @return Number of objects in the sequence.
   size_t size() const override {
-    return detail::AbstractCollection<T>::size() + _delegate->size();
+    return detail::AbstractCollection<T, AllowDuplicates>::size() +
+           _delegate->size();
   }
 
   /// Check if the collection is empty.
   /// @return true if the collection is empty, false otherwise.
   bool empty() const override {
-    return detail::AbstractCollection<T>::empty() && (_delegate->size() == 0);
+    return detail::AbstractCollection<T, AllowDuplicates>::empty() &&
+           (_delegate->size() == 0);
   }
 
   /// Get the begin iterator
-- 
2.43.0


From f6bb4681142c3231906b4502130a3b23e1dda805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 30/66] fix: fixed-size strings assigned from or cut by a part
 of themselves

---
 include/Xsmp/String.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..571a10b 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -167,11 +167,11 @@ template <std::size_t Nm> struct String {
   }
 
   constexpr void remove_prefix(size_t length) {
-    auto newLength = this->length();
-    std::copy(internalString + length, internalString + newLength,
+    const auto currentLength = this->length();
+    length = std::min(length, currentLength);
+    std::copy(internalString + length, internalString + currentLength,
               internalString);
-    newLength -= length;
-    internalString[newLength] = '\0';
+    internalString[currentLength - length] = '\0';
   }
 
   constexpr void remove_suffix(size_t length) noexcept {
@@ -319,7 +319,8 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    // str may be a part of this string
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From 69269dbcc5e49fe25cf380896c1c6053bd317a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 31/66] fix: strings lost or freed twice on self or failed
 assignment

---
 src/Xsmp/cstring.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..4045f2a 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -39,20 +39,19 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+cstring::cstring(const cstring &other)
+    : _value{other._value ? copy(other._value) : nullptr} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
-    delete[] _value;
-    _value = copy(other.c_str());
+    *this = cstring(other);
   }
   return *this;
 }
 
 cstring &cstring::operator=(const char *value) {
-  delete[] _value;
-  _value = copy(value);
-  return *this;
+  // the value may be a part of the current string
+  return *this = cstring(value);
 }
 
 cstring::~cstring() { delete[] _value; }
@@ -61,9 +60,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 16258517cec06dce6f7d1cc2a2251e2c2f1278aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 32/66] fix: AnySimple freed or lost its string on self or
 failed assignment

---
 src/Smp/AnySimple.cpp | 77 ++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..02e8f35 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -24,6 +24,15 @@
 namespace Smp {
 
 namespace {
+inline ::Smp::String8 _copyString(::Smp::String8 value) {
+  if (!value) {
+    return nullptr;
+  }
+  auto size = std::char_traits<char>::length(value) + 1;
+  auto *dest = new ::Smp::Char8[size];
+  std::char_traits<char>::copy(dest, value, size);
+  return dest;
+}
 inline void _releaseContent(::Smp::AnySimple *any) {
   if (any->type == ::Smp::PrimitiveTypeKind::PTK_String8) {
     delete[] any->value.string8Value;
@@ -38,8 +47,11 @@ AnySimple::AnySimple(::Smp::PrimitiveTypeKind kind) : type{kind}, value{} {
   value.string8Value = nullptr;
 }
 
-AnySimple::AnySimple(const ::Smp::AnySimple &other) : AnySimple() {
-  *this = other;
+AnySimple::AnySimple(const ::Smp::AnySimple &other)
+    : type{other.type}, value{other.value} {
+  if (type == PrimitiveTypeKind::PTK_String8) {
+    value.string8Value = _copyString(other.value.string8Value);
+  }
 }
 
 AnySimple::AnySimple(::Smp::AnySimple &&other)
@@ -51,22 +63,7 @@ AnySimple::AnySimple(::Smp::AnySimple &&other)
 AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
   if (this != &other) {
-    _releaseContent(this);
-    type = other.type;
-
-    if (other.type == PrimitiveTypeKind::PTK_String8) {
-      if (other.value.string8Value) {
-        auto size =
-            std::char_traits<char>::length(other.value.string8Value) + 1;
-        auto *dest = new ::Smp::Char8[size];
-        this->value.string8Value = dest;
-        std::char_traits<char>::copy(dest, other.value.string8Value, size);
-      } else {
-        value.string8Value = nullptr;
-      }
-    } else {
-      value = other.value;
-    }
+    *this = AnySimple(other);
   }
 
   return *this;
@@ -74,13 +71,15 @@ AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
 AnySimple &AnySimple::operator=(::Smp::AnySimple &&other) {
 
-  _releaseContent(this);
+  if (this != &other) {
+    _releaseContent(this);
 
-  type = other.type;
-  value = other.value;
+    type = other.type;
+    value = other.value;
 
-  other.type = PrimitiveTypeKind::PTK_None;
-  other.value.string8Value = nullptr;
+    other.type = PrimitiveTypeKind::PTK_None;
+    other.value.string8Value = nullptr;
+  }
 
   return *this;
 }
@@ -136,23 +135,15 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
-  if (kind == PrimitiveTypeKind::PTK_String8) {
-    if (newValue) {
-      auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
-      std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
-    }
-    type = kind;
-  } else {
-
+  if (kind != PrimitiveTypeKind::PTK_String8) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_String8);
   }
+  // the new value may be a part of the current string
+  const auto *copy = _copyString(newValue);
+  _releaseContent(this);
+  this->value.string8Value = copy;
+  type = kind;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt8 newValue) {
@@ -1044,7 +1035,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
@@ -1068,13 +1059,15 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
+      return value.float32Value == static_cast<::Smp::Float32>(other) ||
+             std::fabs(value.float32Value -
                        static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+                 std::numeric_limits<Float32>::epsilon();
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
+      return value.float64Value == static_cast<::Smp::Float64>(other) ||
+             std::fabs(value.float64Value -
                        static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+                 std::numeric_limits<Float64>::epsilon();
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From e72fc9edfe983544de4a8cc1a4e581a02a7e6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 33/66] fix: an SMP exception raised without memory ended the
 process

---
 src/Xsmp/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Exception.cpp b/src/Xsmp/Exception.cpp
index 21dded2..b79eeb7 100644
--- a/src/Xsmp/Exception.cpp
+++ b/src/Xsmp/Exception.cpp
@@ -92,7 +92,7 @@ class Exception : public virtual ::Smp::Exception {
 public:
   template <typename... Args>
   Exception(const ::Smp::IObject *sender, std::string_view name,
-            std::string_view description, Args &&...args) noexcept
+            std::string_view description, Args &&...args)
       : _sender(sender), _name(name), _description(description),
         _message(
             Xsmp::Exception::detail::FormatString(std::forward<Args>(args)...)),
-- 
2.43.0


From 5980f25c7c8f51b09b24ee385848de97c9b8930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 34/66] fix: components added while others are brought up were
 left behind

---
 src/Xsmp/Simulator.cpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 0ae8c6f..0fd15e3 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -72,39 +72,57 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
 
 namespace {
 template <typename Callable>
-void recursive_action(::Smp::IComposite const *composite, Callable &&func);
+bool recursive_action(::Smp::IComposite const *composite, Callable &&func);
 
 /// Execute an action on a components and all its children
 ///
 /// @param component the component
 /// @param func the action to execute
+/// @return true if the state of a component has changed
 template <typename Callable>
-void recursive_action(::Smp::IComponent *component, Callable &&func) {
+bool recursive_action(::Smp::IComponent *component, Callable &&func) {
+  const auto state = component->GetState();
   func(component);
+  auto changed = component->GetState() != state;
   if (auto *composite = dynamic_cast<::Smp::IComposite *>(component)) {
-    recursive_action(composite, std::forward<Callable>(func));
+    changed |= recursive_action(composite, std::forward<Callable>(func));
   }
+  return changed;
 }
 
 template <typename Callable>
-void recursive_action(::Smp::IContainer const *container, Callable &&func) {
+bool recursive_action(::Smp::IContainer const *container, Callable &&func) {
+  auto changed = false;
   if (const auto *components = container->GetComponents()) {
     for (auto *cmp : *components) {
-      recursive_action(cmp, std::forward<Callable>(func));
+      changed |= recursive_action(cmp, std::forward<Callable>(func));
     }
   }
+  return changed;
 }
 
 /// Execute an action on all components inside a composite
 /// @param composite the composite
 /// @param func the action to execute
+/// @return true if the state of a component has changed
 template <typename Callable>
-void recursive_action(::Smp::IComposite const *composite, Callable &&func) {
+bool recursive_action(::Smp::IComposite const *composite, Callable &&func) {
+  auto changed = false;
   if (const auto *containers = composite->GetContainers()) {
     for (auto const *container : *containers) {
-      recursive_action(container, std::forward<Callable>(func));
+      changed |= recursive_action(container, std::forward<Callable>(func));
     }
   }
+  return changed;
+}
+
+/// Execute an action on all components, until the components added by the
+/// action itself are processed as well
+template <typename T, typename Callable>
+void repeated_action(T *root, Callable &&func) {
+  while (recursive_action(root, func)) {
+    // other components may have been added
+  }
 }
 
 constexpr ::Smp::String8 initialiseSymbol = "Initialise";
@@ -172,7 +190,7 @@ void Simulator::Publish() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  repeated_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -191,7 +209,7 @@ void Simulator::Configure() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  repeated_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -214,7 +232,7 @@ void Simulator::Connect() {
   }
   _state = ::Smp::SimulatorStateKind::SSK_Connecting;
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  repeated_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -620,7 +638,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
   }
 
   if (root) {
-    recursive_action(root, [this](::Smp::IComponent *cmp) {
+    repeated_action(root, [this](::Smp::IComponent *cmp) {
       if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
         cmp->Publish(CreatePublication(cmp));
       }
-- 
2.43.0


From 00b30c77fbae41655bc19d1e88801c9603b236d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 35/66] fix: a failing initialisation entry point left the
 simulator in Initialising

---
 src/Xsmp/Helper.cpp    | 27 +++++++++++++++------------
 src/Xsmp/Simulator.cpp | 24 ++++++++++++++----------
 src/Xsmp/Simulator.h   |  3 +++
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..c8509b4 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -56,37 +56,40 @@ void SafeExecute(::Smp::ISimulator *simulator,
                  const ::Smp::IEntryPoint *entryPoint) {
 
   if (simulator) {
+    // there may be no logger
+    auto log = [logger = simulator->GetLogger()](
+                   const ::Smp::IObject *sender, ::Smp::String8 message,
+                   ::Smp::Services::LogMessageKind kind) {
+      if (logger) {
+        logger->Log(sender, message, kind);
+      }
+    };
     try {
-      simulator->GetLogger()->Log(entryPoint, "Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "Execute()", ::Smp::Services::ILogger::LMK_Debug);
 
       entryPoint->Execute();
 
-      simulator->GetLogger()->Log(entryPoint, "return from Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "return from Execute()",
+          ::Smp::Services::ILogger::LMK_Debug);
     }
     // SMP Exception
     catch (const ::Smp::Exception &e) {
       auto msg =
           std::string("Exception ") + e.GetName() + " thrown during execution.";
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->GetLogger()->Log(e.GetSender(), e.what(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+      log(e.GetSender(), e.what(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // standard c++ exception
     catch (const std::exception &e) {
 
       auto msg = std::string("Exception thrown during execution: ") + e.what();
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // other exceptions
     catch (...) {
-      simulator->GetLogger()->Log(
-          entryPoint, "Unexpected exception thrown during execution.",
+      log(entryPoint, "Unexpected exception thrown during execution.",
           ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 0fd15e3..5dcbdad 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -252,11 +252,7 @@ void Simulator::Connect() {
     return;
   }
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
+  ExecuteInitEntryPoints();
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
@@ -265,6 +261,18 @@ void Simulator::Connect() {
              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
+void Simulator::ExecuteInitEntryPoints() {
+  std::vector<::Smp::IEntryPoint *> entryPoints;
+  entryPoints.swap(_initEntryPoints);
+  for (auto const *entryPoint : entryPoints) {
+    // the simulation may have been aborted by another entry point
+    if (_state != ::Smp::SimulatorStateKind::SSK_Initialising) {
+      return;
+    }
+    ::Xsmp::Helper::SafeExecute(this, entryPoint);
+  }
+}
+
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
   const auto previousEventId = _lastGlobalEventId.exchange(eventId);
   if (_eventManager) {
@@ -312,11 +320,7 @@ void Simulator::Initialise() {
     return;
   }
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
+  ExecuteInitEntryPoints();
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
   EnterState(::Smp::SimulatorStateKind::SSK_Initialising,
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index cbc0fd0..e623a9d 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -379,6 +379,9 @@ private:
   bool EnterState(::Smp::SimulatorStateKind from, ::Smp::SimulatorStateKind to,
                   ::Smp::Services::EventId eventId);
 
+  /// Execute the initialisation entry points, once
+  void ExecuteInitEntryPoints();
+
   /// Disconnect all components
   void Disconnect();
 
-- 
2.43.0


From cae4ed4bb38737386809f1282911425678a14c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 36/66] fix: library handles leaked, a failing Finalise skipped
 other libraries

---
 src/Xsmp/Simulator.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 5dcbdad..6c34fdd 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -141,15 +141,23 @@ Simulator::~Simulator() {
   Disconnect();
   // finalise the libraries in reverse order
   while (!_libraries.empty()) {
-    const auto &[name, handle] = _libraries.back();
+    const auto [name, handle] = std::move(_libraries.back());
+    // remove the library handle
+    _libraries.pop_back();
     if (_logger) {
       _logger->Log(this, ("Unloading " + name + " library...").c_str(),
                    ::Smp::Services::ILogger::LMK_Debug);
     }
 
     // Call Finalise
-    if ((*::Xsmp::GetSymbol<bool (*)(::Smp::ISimulator *simulator)>(
-            handle, finaliseSymbol))(this)) {
+    auto finalised = false;
+    try {
+      finalised = (*::Xsmp::GetSymbol<bool (*)(::Smp::ISimulator *simulator)>(
+          handle, finaliseSymbol))(this);
+    } catch (...) {
+      // the other libraries have to be finalised as well
+    }
+    if (finalised) {
       if (_logger) {
         _logger->Log(this,
                      ("Library " + name + " successfully unloaded.").c_str(),
@@ -161,8 +169,6 @@ Simulator::~Simulator() {
                      ::Smp::Services::ILogger::LMK_Error);
       }
     }
-    // remove the library handle
-    _libraries.pop_back();
   }
 }
 ::Smp::String8 Simulator::GetName() const { return _name.c_str(); }
@@ -824,6 +830,14 @@ const ::Smp::FactoryCollection *Simulator::GetFactories() const {
 
 void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
 
+  if (!libraryPath) {
+    if (_logger) {
+      _logger->Log(this, "No path of the library to load.",
+                   ::Smp::Services::ILogger::LMK_Error);
+    }
+    ::Xsmp::Exception::throwLibraryNotFound(this, "", "no library path");
+  }
+
   if (_logger) {
     _logger->Log(
         this,
@@ -851,6 +865,7 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
         "' does not provide function 'bool Initialize(::Smp::ISimulator *, "
         "::Smp::Publication::ITypeRegistry *)': " +
         ::Xsmp::GetLastError();
+    ::Xsmp::CloseLibrary(handle);
     if (_logger) {
       _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
     }
@@ -863,6 +878,7 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
     const std::string msg = std::string("Library '") + libraryPath +
                             "' does not provide function 'bool Finalise()': " +
                             ::Xsmp::GetLastError();
+    ::Xsmp::CloseLibrary(handle);
     if (_logger) {
       _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
     }
-- 
2.43.0


From 9ed73c2b7b9db8c50d311309e746182335179def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 37/66] fix: link counts and link sources diverged under
 concurrent use

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 42 ++++++++++++++++----------
 src/Xsmp/Services/XsmpLinkRegistry.h   |  5 +--
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..91123b8 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -26,17 +27,21 @@ void XsmpLinkRegistry::AddLink(::Smp::IComponent *source,
 
   auto key = std::make_pair(source, target);
 
+  // the links are locked until the sources are up to date
   auto linksAccess = _links.write();
-  auto it = linksAccess.get().find(key);
-  if (it == linksAccess.get().end()) {
-    linksAccess.get().try_emplace(key, 1);
-    _targets.write()
-        .get()
-        .try_emplace(target, "Links", "", this)
-        .first->second.Add(source);
-  } else {
-    ++it->second;
+  auto [it, added] = linksAccess.get().try_emplace(key, 0);
+  if (added) {
+    try {
+      _targets.write()
+          .get()
+          .try_emplace(target, "Links", "", this)
+          .first->second.Add(source);
+    } catch (...) {
+      linksAccess.get().erase(it);
+      throw;
+    }
   }
+  ++it->second;
 }
 
 ::Smp::UInt32
@@ -61,7 +66,6 @@ XsmpLinkRegistry::GetLinkCount(const ::Smp::IComponent *source,
   it->second--;
   if (it->second == 0) {
     linksAccess.get().erase(it);
-    linksAccess.unlock();
     auto targetsAccess = _targets.write();
     auto it2 = targetsAccess.get().find(target);
     if (it2 != targetsAccess.get().end()) {
@@ -106,14 +110,20 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
+  // the sources remove their links while they are asked
+  std::vector<::Smp::IComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      sources.assign(it->second.begin(), it->second.end());
+    }
+  }
+  for (auto *source : sources) {
+    // skip the sources whose links have been removed in the meantime
+    if (GetLinkCount(source, target) > 0) {
       if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
         cmp->RemoveLinks(target);
-        targetAccess.lock();
       }
     }
   }
diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..762e92f 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -128,8 +128,9 @@ private:
                ::Smp::UInt32>>
       _links;
 
-  mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+  // sources in different composites may have the same name
+  mutable Xsmp::ThreadSafeData<std::map<
+      const ::Smp::IComponent *, ::Xsmp::Collection<::Smp::IComponent, true>>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From a4ba93265d1234e60cd9ebfbc86af9f9b60fc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 38/66] fix: an event identifier was known before it could be
 used

---
 src/Xsmp/Services/XsmpEventManager.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index f92e608..d331227 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -105,10 +105,14 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
   auto eventId =
       static_cast<::Smp::Services::EventId>(eventsAccess.get().size() + 1);
 
-  const auto &name =
-      eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
-  _ids.write().get().try_emplace(eventId, name);
+  // the identifier can be used as soon as it is known to any thread
+  auto it = eventsAccess.get().try_emplace(eventName, eventId).first;
+  try {
+    _ids.write().get().try_emplace(eventId, it->first);
+  } catch (...) {
+    eventsAccess.get().erase(it);
+    throw;
+  }
   return eventId;
 }
 
-- 
2.43.0


From da99348938a5dc347bd9843d3f5fee1f30e1af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 39/66] fix: Subscribe and Unsubscribe after Exit crashed

---
 src/Xsmp/Services/XsmpEventManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index d331227..6ac7970 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -147,7 +147,9 @@ void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
           event, std::vector<const ::Smp::IEntryPoint *>{entryPoint});
     }
   }
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  // there is no simulator any more after it has been exited
+  auto *simulator = GetSimulator();
+  if (auto *logger = simulator ? simulator->GetLogger() : nullptr) {
     logger->Log(this,
                 (::Xsmp::Helper::GetPath(entryPoint) + " subscribed to " +
                  event_name + ".")
@@ -169,7 +171,8 @@ void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
     auto it2 = std::find(entryPoints.begin(), entryPoints.end(), entryPoint);
     if (it2 != entryPoints.end()) {
       entryPoints.erase(it2);
-      if (auto *logger = GetSimulator()->GetLogger()) {
+      auto *simulator = GetSimulator();
+      if (auto *logger = simulator ? simulator->GetLogger() : nullptr) {
         logger->Log(this,
                     (::Xsmp::Helper::GetPath(entryPoint) + " unsubscribed to " +
                      event_name + ".")
-- 
2.43.0


From 21f69e3bbce5da6491100b1b773ff4e74069c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 40/66] fix: sinks changed during an emission, sinks notified
 in address order

---
 include/Xsmp/EventSource.h |  5 +++--
 src/Xsmp/EventSource.cpp   | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/Xsmp/EventSource.h b/include/Xsmp/EventSource.h
index f6b7e96..923e204 100644
--- a/include/Xsmp/EventSource.h
+++ b/include/Xsmp/EventSource.h
@@ -20,7 +20,7 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Xsmp/AnySimpleConverter.h>
 #include <Xsmp/cstring.h>
-#include <set>
+#include <vector>
 
 namespace Smp {
 class IComponent;
@@ -59,7 +59,8 @@ private:
   ::Xsmp::cstring _name;
   ::Xsmp::cstring _description;
   ::Smp::IObject *_parent;
-  std::set<::Smp::IEventSink *> _event_sinks;
+  // in order of subscription
+  std::vector<::Smp::IEventSink *> _event_sinks;
   ::Smp::PrimitiveTypeKind _eventArgType;
   // Extensions for ILinkingComponent
   /// Asks an Event Source to remove all its links to the given target
diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..cc50992 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -53,7 +53,7 @@ void AbstractEventSource::Subscribe(::Smp::IEventSink *eventSink) {
       _event_sinks.end()) {
     ::Xsmp::Exception::throwEventSinkAlreadySubscribed(this, this, eventSink);
   }
-  _event_sinks.insert(eventSink);
+  _event_sinks.push_back(eventSink);
 }
 void AbstractEventSource::Unsubscribe(::Smp::IEventSink *eventSink) {
   auto it = std::find(_event_sinks.begin(), _event_sinks.end(), eventSink);
@@ -79,8 +79,13 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // sinks can be subscribed and unsubscribed while they are notified
+  const auto eventSinks = _event_sinks;
+  for (auto *sink : eventSinks) {
+    if (std::find(_event_sinks.begin(), _event_sinks.end(), sink) !=
+        _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From 6dc9016574df64e408d99d04cd824d670ef0ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 41/66] fix: time restored piecewise, set after a stale check

---
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 416152e..252ff3b 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -84,12 +84,15 @@ void XsmpTimeKeeper::SetSimulationTime(::Smp::Duration simulationTime) {
     return;
   }
   auto max = GetSimulator()->GetScheduler()->GetNextScheduledEventTime();
-  auto current = _simulationTime.read().get();
+  // the time must not be changed between the check and the change
+  auto simulationTimeAccess = _simulationTime.write();
+  auto current = simulationTimeAccess.get();
   if (simulationTime < current || simulationTime > max) {
+    simulationTimeAccess.unlock();
     ::Xsmp::Exception::throwInvalidSimulationTime(this, current, simulationTime,
                                                   max);
   }
-  _simulationTime.write().get() = simulationTime;
+  simulationTimeAccess.get() = simulationTime;
 }
 
 void XsmpTimeKeeper::Restore(::Smp::IStorageReader *reader) {
@@ -99,9 +102,13 @@ void XsmpTimeKeeper::Restore(::Smp::IStorageReader *reader) {
   auto epochStart = _epochStart.read().get();
   ::Xsmp::Persist::Restore(GetSimulator(), this, reader, simulationTime,
                            missionStartTime, epochStart);
-  _simulationTime.write().get() = simulationTime;
-  _missionStartTime.write().get() = missionStartTime;
-  _epochStart.write().get() = epochStart;
+  // change all times at once
+  auto simulationTimeAccess = _simulationTime.write();
+  auto epochStartAccess = _epochStart.write();
+  auto missionStartTimeAccess = _missionStartTime.write();
+  simulationTimeAccess.get() = simulationTime;
+  epochStartAccess.get() = epochStart;
+  missionStartTimeAccess.get() = missionStartTime;
 }
 
 void XsmpTimeKeeper::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From 4d59490bb041952a57214e33f7ee389ff91a4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 42/66] fix: Exit called by a wall-clock event ended the
 process

Exit disconnects the services; disconnecting the scheduler joined the
wall-clock thread, also when that thread itself was calling an entry point
that called Exit: std::system_error (resource deadlock) left a noexcept path
and ended the process. The thread now only stops itself in that case and is
joined by the destructor.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 22 ++++++++++++++++------
 src/Xsmp/Services/XsmpScheduler.h   |  7 +++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 66de51d..c2a8180 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -100,17 +100,27 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
 
-void XsmpScheduler::DoDisconnect() {
-  // stop the zulu thread
+void XsmpScheduler::Disconnect() {
+  if (_zuluThread.get_id() == std::this_thread::get_id()) {
+    // the simulation is exited by a zulu event: its thread cannot be joined
+    // before the event is completed
+    StopZulu();
+    return;
+  }
+  XsmpSchedulerGen::Disconnect();
+}
+
+void XsmpScheduler::StopZulu() {
   {
     const std::scoped_lock lck{_zuluEventsTableMutex};
-    // if already terminated do nothing
-    if (_terminate) {
-      return;
-    }
     _terminate = true;
   }
   _zuluCv.notify_one();
+}
+
+void XsmpScheduler::DoDisconnect() {
+  // stop the zulu thread
+  StopZulu();
   if (_zuluThread.joinable()) {
     _zuluThread.join();
   }
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 9fac62e..18ef976 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -371,6 +371,10 @@ public:
   void SetTargetSpeed(double speed);
   double GetTargetSpeed() const noexcept;
 
+  /// Disconnect the scheduler. When called by a zulu event, the scheduler is
+  /// disconnected when the simulator is destroyed.
+  void Disconnect() override;
+
 private:
   friend class ::Xsmp::Component::Helper;
 
@@ -492,6 +496,9 @@ private:
 
   void DoConnect(const ::Smp::ISimulator *simulator);
   void DoDisconnect();
+
+  /// Ask the zulu thread to end
+  void StopZulu();
 };
 
 } // namespace Xsmp::Services
-- 
2.43.0


From f69451610f2ba24b379b1ccbf79d7f61e24642ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 43/66] fix: undo a field connection that fails

When a target refused the value pushed by Connect, the links made so far
stayed. InputFieldCollection::contains had the inverse meaning of its name.
---
 src/Xsmp/Field.cpp | 72 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..a5e4c75 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -39,13 +39,18 @@ class FieldHelper {
 public:
   static bool CanConnect(const SimpleConnectableField *output,
                          const ::Smp::ISimpleField *input) {
-    return output->_connectedFields.contains(input);
+    return !output->_connectedFields.contains(input);
   }
   static void Connect(SimpleConnectableField *output,
                       ::Smp::ISimpleField *input) {
     output->_connectedFields.add(input);
-    // push value
-    input->SetValue(output->GetValue());
+    try {
+      // push value
+      input->SetValue(output->GetValue());
+    } catch (...) {
+      Disconnect(output, input);
+      throw;
+    }
   }
 
   static void Disconnect(SimpleConnectableField *output,
@@ -58,15 +63,20 @@ public:
 
   static bool CanConnect(const SimpleArrayConnectableField *output,
                          const ::Smp::ISimpleArrayField *input) {
-    return output->_connectedFields.contains(input);
+    return !output->_connectedFields.contains(input);
   }
   static void Connect(SimpleArrayConnectableField *output,
                       ::Smp::ISimpleArrayField *input) {
     output->_connectedFields.add(input);
-    // push value
-    const auto size = output->GetSize();
-    for (::Smp::UInt64 i = 0; i < size; ++i) {
-      input->SetValue(i, output->GetValue(i));
+    try {
+      // push value
+      const auto size = output->GetSize();
+      for (::Smp::UInt64 i = 0; i < size; ++i) {
+        input->SetValue(i, output->GetValue(i));
+      }
+    } catch (...) {
+      Disconnect(output, input);
+      throw;
     }
   }
   static void Disconnect(SimpleArrayConnectableField *output,
@@ -93,8 +103,17 @@ public:
   static void Connect(const ::Smp::IArrayField *output,
                       const ::Smp::IArrayField *input) {
     const auto size = output->GetSize();
-    for (::Smp::UInt64 i = 0; i < size; ++i) {
-      Connect(output->GetItem(i), input->GetItem(i));
+    ::Smp::UInt64 i = 0;
+    try {
+      for (; i < size; ++i) {
+        Connect(output->GetItem(i), input->GetItem(i));
+      }
+    } catch (...) {
+      while (i > 0) {
+        --i;
+        Disconnect(output->GetItem(i), input->GetItem(i));
+      }
+      throw;
     }
   }
   static void Disconnect(const ::Smp::IArrayField *output,
@@ -113,12 +132,17 @@ public:
 
   static bool CanConnect(const ArrayDataflowField *output,
                          const ::Smp::IArrayField *input) {
-    return output->_connectedFields.contains(input) &&
+    return !output->_connectedFields.contains(input) &&
            CanConnect(static_cast<const ::Smp::IArrayField *>(output), input);
   }
   static void Connect(ArrayDataflowField *output, ::Smp::IArrayField *input) {
     output->_connectedFields.add(input);
-    Connect(static_cast<const ::Smp::IArrayField *>(output), input);
+    try {
+      Connect(static_cast<const ::Smp::IArrayField *>(output), input);
+    } catch (...) {
+      output->_connectedFields.remove(input);
+      throw;
+    }
   }
 
   static void Disconnect(ArrayDataflowField *output,
@@ -156,8 +180,17 @@ public:
     const auto *outputFields = output->GetFields();
     const auto *inputFields = input->GetFields();
     const ::Smp::UInt64 size = outputFields->size();
-    for (::Smp::UInt64 i = 0; i < size; ++i) {
-      Connect(outputFields->at(i), inputFields->at(i));
+    ::Smp::UInt64 i = 0;
+    try {
+      for (; i < size; ++i) {
+        Connect(outputFields->at(i), inputFields->at(i));
+      }
+    } catch (...) {
+      while (i > 0) {
+        --i;
+        Disconnect(outputFields->at(i), inputFields->at(i));
+      }
+      throw;
     }
   }
   static void Disconnect(const ::Smp::IStructureField *output,
@@ -178,14 +211,19 @@ public:
   }
   static bool CanConnect(const StructureDataflowField *output,
                          const ::Smp::IStructureField *input) {
-    return output->_connectedFields.contains(input) &&
+    return !output->_connectedFields.contains(input) &&
            CanConnect(static_cast<const ::Smp::IStructureField *>(output),
                       input);
   }
   static void Connect(StructureDataflowField *output,
                       ::Smp::IStructureField *input) {
     output->_connectedFields.add(input);
-    Connect(static_cast<const ::Smp::IStructureField *>(output), input);
+    try {
+      Connect(static_cast<const ::Smp::IStructureField *>(output), input);
+    } catch (...) {
+      output->_connectedFields.remove(input);
+      throw;
+    }
   }
   static void Disconnect(StructureDataflowField *output,
                          const ::Smp::IStructureField *input) {
@@ -441,7 +479,7 @@ InputFieldCollection::const_iterator InputFieldCollection::end() const {
 }
 
 bool InputFieldCollection::contains(const ::Smp::IField *input) const {
-  return std::find(_fields.begin(), _fields.end(), input) == _fields.end();
+  return std::find(_fields.begin(), _fields.end(), input) != _fields.end();
 }
 
 void InputFieldCollection::add(::Smp::IField *input) {
-- 
2.43.0


From 05a06f54a111c865e9deb0fbda67d68cf3cf36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 44/66] fix: remove every link to a removed component

RemoveLinks skipped each field following a disconnected one, because
disconnecting removes it from the collection being visited, and did not
visit the sub-fields of structure and array outputs.
---
 src/Xsmp/Component.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..80e08dd 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -156,7 +156,9 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // backwards, because disconnecting removes the field from the collection
+      for (auto i = inputFields->size(); i > 0; --i) {
+        const auto *inputField = inputFields->at(i - 1);
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
@@ -164,8 +166,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
@@ -179,7 +181,7 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
       RemoveFieldLinks(arrayField->GetItem(i), target);
     }
   } else {
-    // ignore: the field is a simple field or simple array field without links
+    // ignore: a simple field or simple array field has no subfields
   }
 }
 
-- 
2.43.0


From d7487f9ed565c133c8ffe97bb099672dce91b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 45/66] fix: refuse to connect simple arrays of different item
 types

The primitive kind of an array type is always None: any two arrays of the
same size were taken as equivalent.
---
 src/Xsmp/Helper.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index c8509b4..77d9efc 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -252,11 +253,25 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+// the primitive type kind of the items of a simple array field
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  // the kind of an array type is always None, use the type of its items.
+  // The type of an anonymous array field is the type of its items.
+  if (const auto *arrayType =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = arrayType->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
-  return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+  if (target->GetSize() != source->GetSize()) {
+    return false;
+  }
+  return GetItemKind(source) == GetItemKind(target);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From bca1631999f76687bbbad698635ff7ae8bf3382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 46/66] fix: allow to connect structure outputs holding
 structures or arrays

Nested fields did not inherit the connectable annotation.
---
 include/Xsmp/Field.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index accd020..bfdabf2 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -1177,6 +1177,11 @@ protected:
       using type = typename U::connectable;
     };
 
+    template <typename U>
+    struct annotation<U, ::Xsmp::Annotation::connectable> {
+      using type = typename U::connectable;
+    };
+
     template <typename U> struct annotation<U, ::Xsmp::Annotation::forcible> {
       using type = typename U::forcible;
     };
-- 
2.43.0


From a04f0c81f219cc10060b42805e80442e8f0602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 47/66] fix: keep a field forced when a new forced value is
 refused

---
 src/Xsmp/Field.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index a5e4c75..b1c4443 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -579,8 +579,14 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
+  const auto forced = _forced;
   _forced = false;
-  this->SetValue(std::move(value));
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From 452ec7a09418706e287a35b0b9b61b9725b39abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 48/66] fix: push the items of simple array fields whenever
 they change

SetValue, SetValues, fill and swap changed the items without updating the
connected fields, and a refused SetValues changed the first ones. The
operators that push are no longer noexcept: pushing can be refused by the
connected field.
---
 include/Xsmp/Field.h | 91 +++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index bfdabf2..c31bba8 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -477,38 +477,38 @@ public:
   const_pointer operator->() const noexcept { return &_value; }
   pointer operator->() noexcept { return &_value; }
 
-  SimpleField &operator=(const T &value) noexcept { return SetValue(value); }
+  SimpleField &operator=(const T &value) { return SetValue(value); }
 
-  SimpleField &operator++() noexcept { return SetValue(_value + 1); }
-  SimpleField &operator--() noexcept { return SetValue(_value - 1); }
-  template <typename U> SimpleField &operator<<=(const U &_i) noexcept {
+  SimpleField &operator++() { return SetValue(_value + 1); }
+  SimpleField &operator--() { return SetValue(_value - 1); }
+  template <typename U> SimpleField &operator<<=(const U &_i) {
     return SetValue(_value << _i);
   }
-  template <typename U> SimpleField &operator>>=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator>>=(const U &_i) {
     return SetValue(_value >> _i);
   }
-  template <typename U> SimpleField &operator+=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator+=(const U &_i) {
     return SetValue(_value + _i);
   }
-  template <typename U> SimpleField &operator-=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator-=(const U &_i) {
     return SetValue(_value - _i);
   }
-  template <typename U> SimpleField &operator*=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator*=(const U &_i) {
     return SetValue(_value * _i);
   }
-  template <typename U> SimpleField &operator/=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator/=(const U &_i) {
     return SetValue(_value / _i);
   }
-  template <typename U> SimpleField &operator%=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator%=(const U &_i) {
     return SetValue(_value % _i);
   }
-  template <typename U> SimpleField &operator&=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator&=(const U &_i) {
     return SetValue(_value & _i);
   }
-  template <typename U> SimpleField &operator|=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator|=(const U &_i) {
     return SetValue(_value | _i);
   }
-  template <typename U> SimpleField &operator^=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator^=(const U &_i) {
     return SetValue(_value ^ _i);
   }
 
@@ -779,6 +779,7 @@ public:
       ::Xsmp::Exception::throwInvalidFieldValue(this, value);
     }
     _value[index] = ::Xsmp::AnySimpleConverter<value_type>::convert(value);
+    push(index);
   }
 
   void GetValues(::Smp::UInt64 length,
@@ -802,8 +803,11 @@ public:
       if (values[i].type != _itemKind) {
         ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
       }
+    }
+    for (size_t i = 0; i < _size; ++i) {
       _value[i] = ::Xsmp::AnySimpleConverter<value_type>::convert(values[i]);
     }
+    push();
   }
 
   void Restore(::Smp::IStorageReader *reader) override {
@@ -839,55 +843,45 @@ public:
 
     const T &operator->() const noexcept { return &_value; }
 
-    protected_reference &operator=(const value_type &value) noexcept {
+    protected_reference &operator=(const value_type &value) {
       return SetValue(value);
     }
 
-    protected_reference &operator++() noexcept { return SetValue(_value + 1); }
-    protected_reference &operator--() noexcept { return SetValue(_value - 1); }
-    template <typename U>
-    protected_reference &operator<<=(const U &_i) noexcept {
+    protected_reference &operator++() { return SetValue(_value + 1); }
+    protected_reference &operator--() { return SetValue(_value - 1); }
+    template <typename U> protected_reference &operator<<=(const U &_i) {
       return SetValue(_value << _i);
     }
-    template <typename U>
-    protected_reference &operator>>=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator>>=(const U &_i) {
       return SetValue(_value >> _i);
     }
-    template <typename U>
-    protected_reference &operator+=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator+=(const U &_i) {
       return SetValue(_value + _i);
     }
-    template <typename U>
-    protected_reference &operator-=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator-=(const U &_i) {
       return SetValue(_value - _i);
     }
-    template <typename U>
-    protected_reference &operator*=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator*=(const U &_i) {
       return SetValue(_value * _i);
     }
-    template <typename U>
-    protected_reference &operator/=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator/=(const U &_i) {
       return SetValue(_value / _i);
     }
-    template <typename U>
-    protected_reference &operator%=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator%=(const U &_i) {
       return SetValue(_value % _i);
     }
-    template <typename U>
-    protected_reference &operator&=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator&=(const U &_i) {
       return SetValue(_value & _i);
     }
-    template <typename U>
-    protected_reference &operator|=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator|=(const U &_i) {
       return SetValue(_value | _i);
     }
-    template <typename U>
-    protected_reference &operator^=(const U &_i) noexcept {
+    template <typename U> protected_reference &operator^=(const U &_i) {
       return SetValue(_value ^ _i);
     }
 
   private:
-    inline protected_reference &SetValue(const value_type &value) noexcept {
+    inline protected_reference &SetValue(const value_type &value) {
       _value = value;
       _parent->internal_push(_index);
       return *this;
@@ -988,8 +982,14 @@ public:
   operator const T &() const noexcept { return _value; }
   operator T &() noexcept { return _value; }
 
-  void fill(const value_type &_u) { _value.fill(_u); }
-  void swap(T &_other) noexcept { _value.swap(_other); }
+  void fill(const value_type &_u) {
+    _value.fill(_u);
+    push();
+  }
+  void swap(T &_other) {
+    _value.swap(_other);
+    push();
+  }
 
   // Iterators.
   [[nodiscard]] iterator begin() noexcept {
@@ -1121,6 +1121,19 @@ public:
   [[nodiscard]] const_pointer data() const noexcept { return _value.data(); }
 
 private:
+  // push one item to the connected fields
+  void push([[maybe_unused]] size_t index) const {
+    if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
+                                             Annotations...>) {
+      this->internal_push(index);
+    }
+  }
+  // push all items to the connected fields
+  void push() const {
+    for (size_t i = 0; i < _size; ++i) {
+      push(i);
+    }
+  }
   const ::Smp::Publication::IArrayType *_type;
   T _value;
 };
-- 
2.43.0


From de13a6cc5919cf5257ddd592aa8ee99b9fffef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 49/66] fix: disconnect the fields published by address

They did not implement the interface used to remove links, and kept
pushing to deleted fields.
---
 src/Xsmp/Publication/Field.cpp | 21 +++++++++++++++++----
 src/Xsmp/Publication/Field.h   | 11 ++++++++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..5958a60 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -141,16 +141,29 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
 }
 
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  if (_targets.contains(target)) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
-  // push the current value
-  Push(this, target);
+  _targets.add(target);
+  try {
+    // push the current value
+    Push(this, target);
+  } catch (...) {
+    _targets.remove(target);
+    throw;
+  }
+}
+
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
 }
 
 void DataflowField::Push(::Smp::IField *source, ::Smp::IField *target) {
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..98c6262 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -25,10 +25,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +99,21 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
   void Connect(::Smp::IField *target) final;
 
   /// Push the current field value to all connected target fields.
   void Push() final;
 
+  void Disconnect(const ::Smp::IField *target) final;
+
+  const ::Smp::FieldCollection *GetInputFields() const final;
+
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets{
+      "InputFields", "Collection of connected input Fields", this};
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From d6997784e549036a291bca44d8625275be6e0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 50/66] fix: check all values before writing fields published
 by address

Enumerations were only checked for 32 bit simple fields, and a refused
SetValues changed the first items of the array.
---
 src/Xsmp/Publication/Field.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5958a60..fff7873 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -409,6 +409,13 @@ void AnonymousSimpleArrayField::SetValues(::Smp::UInt64 length,
   if (length != GetSize()) {
     ::Xsmp::Exception::throwInvalidArraySize(this, length);
   }
+  // check all values before the first one is set
+  auto kind = GetType()->GetPrimitiveTypeKind();
+  for (::Smp::UInt64 i = 0; i < length; ++i) {
+    if (values[i].type != kind) {
+      ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
+    }
+  }
   for (::Smp::UInt64 i = 0; i < length; ++i) {
     SetValue(i, values[i]);
   }
@@ -561,6 +568,9 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
   if (index >= GetSize()) {
     ::Xsmp::Exception::throwInvalidArrayIndex(this, index);
   }
+  if (isInvalidEnumerationValue(_itemType, value)) {
+    ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
+  }
   void *address = static_cast<char *>(GetAddress()) + index * _itemSize;
 
   switch (_itemType->GetPrimitiveTypeKind()) {
@@ -577,9 +587,6 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
-    }
     *static_cast<::Smp::Int32 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
@@ -635,10 +642,14 @@ void SimpleArrayField::SetValues(::Smp::UInt64 length,
     ::Xsmp::Exception::throwInvalidArraySize(this, length);
   }
   auto _itemKind = _itemType->GetPrimitiveTypeKind();
+  // check all values before the first one is set
   for (::Smp::UInt64 i = 0; i < length; ++i) {
-    if (values[i].type != _itemKind) {
+    if (values[i].type != _itemKind ||
+        isInvalidEnumerationValue(_itemType, values[i])) {
       ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
     }
+  }
+  for (::Smp::UInt64 i = 0; i < length; ++i) {
     SetValue(i, values[i]);
   }
 }
@@ -755,6 +766,9 @@ void SimpleField::Store(::Smp::IStorageWriter *writer) {
 }
 
 void SimpleField::SetValue(::Smp::AnySimple value) {
+  if (isInvalidEnumerationValue(GetType(), value)) {
+    ::Xsmp::Exception::throwInvalidFieldValue(this, value);
+  }
   auto kind = GetPrimitiveTypeKind();
   switch (kind) {
   case ::Smp::PrimitiveTypeKind::PTK_Bool:
@@ -770,9 +784,6 @@ void SimpleField::SetValue(::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidFieldValue(this, value);
-    }
     *static_cast<::Smp::Int32 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
-- 
2.43.0


From fe12dc52f4fe7656ccc8b88de4a11635cce52637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 51/66] fix: refuse duplicate names of own and published fields

---
 src/Xsmp/Publication/Publication.cpp | 30 ++++++++++++++++++----------
 src/Xsmp/Publication/Publication.h   |  5 +++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..12a2808 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -31,6 +31,8 @@
 #include <Xsmp/Publication/Property.h>
 #include <Xsmp/Publication/Publication.h>
 #include <cstring>
+#include <memory>
+#include <utility>
 
 namespace Xsmp::Publication {
 
@@ -41,6 +43,14 @@ Publication::Publication(::Smp::IObject *parent,
       _properties{"Properties", "", parent},
       _operations{"Operations", "", parent} {}
 
+template <typename T> T *Publication::AddField(std::unique_ptr<T> field) {
+  if (_allFields.at(field->GetName())) {
+    ::Xsmp::Exception::throwDuplicateName(_parent, field->GetName(),
+                                          &_allFields);
+  }
+  return _fields.Add(std::move(field));
+}
+
 ::Smp::Publication::ITypeRegistry *Publication::GetTypeRegistry() const {
   return _typeRegistry;
 }
@@ -146,8 +156,8 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
-    _fields.Add(Field::Create(name, description, _parent, address, type, view,
-                              state, input, output));
+    AddField(Field::Create(name, description, _parent, address, type, view,
+                           state, input, output));
   } else {
     ::Xsmp::Exception::throwTypeNotRegistered(_parent, typeUuid);
   }
@@ -161,13 +171,13 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (output) {
-    _fields.Add<AnonymousSimpleArrayDataflowField>(
+    AddField(std::make_unique<AnonymousSimpleArrayDataflowField>(
         name, description, _parent, count, address,
-        _typeRegistry->GetType(type), view, state, input, output);
+        _typeRegistry->GetType(type), view, state, input, output));
   } else {
-    _fields.Add<AnonymousSimpleArrayField>(
+    AddField(std::make_unique<AnonymousSimpleArrayField>(
         name, description, _parent, count, address,
-        _typeRegistry->GetType(type), view, state, input, output);
+        _typeRegistry->GetType(type), view, state, input, output));
   }
 }
 
@@ -175,16 +185,16 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
-  return _fields.Add<AnonymousArrayField>(name, description, _parent,
-                                          _typeRegistry, view, state);
+  return AddField(std::make_unique<AnonymousArrayField>(
+      name, description, _parent, _typeRegistry, view, state));
 }
 
 ::Smp::IPublication *Publication::PublishStructure(::Smp::String8 name,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
-  return _fields.Add<AnonymousStructureField>(name, description, _parent,
-                                              _typeRegistry, view, state);
+  return AddField(std::make_unique<AnonymousStructureField>(
+      name, description, _parent, _typeRegistry, view, state));
 }
 
 ::Smp::Publication::IPublishOperation *
diff --git a/src/Xsmp/Publication/Publication.h b/src/Xsmp/Publication/Publication.h
index 5aa2a9e..679005b 100644
--- a/src/Xsmp/Publication/Publication.h
+++ b/src/Xsmp/Publication/Publication.h
@@ -23,6 +23,7 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <memory>
 
 namespace Smp {
 class IComponent;
@@ -512,6 +513,10 @@ public:
   void Unpublish() final;
 
 private:
+  /// Add a field to the owned fields.
+  /// The name must differ from the names of all published fields.
+  template <typename T> T *AddField(std::unique_ptr<T> field);
+
   ::Smp::IObject *_parent;
   ::Smp::Publication::ITypeRegistry *_typeRegistry;
   ::Xsmp::ContainingCollection<::Smp::IField> _fields;
-- 
2.43.0


From 5cc6ec6e625cd6bd18eb32dffb83c00ae175bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 52/66] fix: refuse not-a-number for float types with a range

---
 src/Xsmp/Publication/Request.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..2728cb8 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -50,10 +50,11 @@ bool Request::isValid(const ::Smp::IObject *sender,
   else if (const auto *floatType = dynamic_cast<const FloatType *>(type)) {
     auto floatValue = static_cast<::Smp::Float64>(value);
 
-    if ((floatType->IsMinInclusive() ? floatValue < floatType->getMinimum()
-                                     : floatValue <= floatType->getMinimum()) ||
-        (floatType->IsMaxInclusive() ? floatValue > floatType->getMaximum()
-                                     : floatValue >= floatType->getMaximum())) {
+    // not a number is outside of any range
+    if (!(floatType->IsMinInclusive() ? floatValue >= floatType->getMinimum()
+                                      : floatValue > floatType->getMinimum()) ||
+        !(floatType->IsMaxInclusive() ? floatValue <= floatType->getMaximum()
+                                      : floatValue < floatType->getMaximum())) {
       return false;
     }
   }
-- 
2.43.0


From ea17a5eb0341366b14570a96ad515d62be8b2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 53/66] fix: make the items of an anonymous array its children

The array gave its own parent to its items: their path left out the name
of the array and led nowhere.
---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index fff7873..d0fc02e 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -218,7 +218,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
+      ::Xsmp::Publication::Publication(this, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 392c09053c1ac9aa36a56233fa94c495e61d11d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 54/66] fix: do not take a failed allocation for an object that
 is missing

---
 src/Xsmp/Helper.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 77d9efc..874a949 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -44,6 +44,7 @@
 #include <cstdlib>
 #include <exception>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -373,24 +374,25 @@ std::string GetPath(const ::Smp::IObject *obj) {
   }
   if (auto const *arrayField = dynamic_cast<::Smp::IArrayField *>(parent)) {
     if (segment.front() == '[' && segment.back() == ']') {
+      auto size = arrayField->GetSize();
+      std::size_t pos = 0;
+      long long value = 0;
       try {
-        auto size = arrayField->GetSize();
-        std::size_t pos = 0;
-        auto value = std::stoll(&segment[1], &pos);
-        if (pos + 2 != segment.length()) {
-          return nullptr;
-        }
-        // handle negative index (similar to python arrays)
-        auto index = static_cast<::Smp::UInt64>(
-            value < 0 ? static_cast<::Smp::Int64>(size) + value : value);
-
-        if (index < size) {
-          return Resolve(arrayField->GetItem(index), path);
-        }
-      } catch (std::exception &) {
-        // ignore stoll conversion errors & Smp::InvalidArrayIndex
+        value = std::stoll(&segment[1], &pos);
+      } catch (const std::logic_error &) {
+        // not a number
         return nullptr;
       }
+      if (pos + 2 != segment.length()) {
+        return nullptr;
+      }
+      // handle negative index (similar to python arrays)
+      auto index = static_cast<::Smp::UInt64>(
+          value < 0 ? static_cast<::Smp::Int64>(size) + value : value);
+
+      if (index < size) {
+        return Resolve(arrayField->GetItem(index), path);
+      }
     }
   }
   return nullptr;
-- 
2.43.0


From 57429dad4921585db1a6618884d7366c5d8621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 55/66] fix: resolve the rest of a path from a field

When a path led back to a field with "..", the next segment was dropped.
---
 src/Xsmp/Helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 874a949..f759b74 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -403,6 +403,9 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From d1cce4109bc644cddccfd7661b2cf5b6ef770009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 56/66] fix: resolve the path of a component whose name another
 element has

The path of a child component led to the field, entry point or other
element of the same name, that is reached with '.'.
---
 src/Xsmp/Helper.cpp | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index f759b74..2e61edf 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -224,27 +224,22 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
       }
     }
   }
+  return nullptr;
+}
 
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
+inline ::Smp::IObject *ResolveChild(const ::Smp::IObject *object,
+                                    ::Smp::String8 name, ::Smp::String8 path) {
+  if (auto const *composite = dynamic_cast<const ::Smp::IComposite *>(object)) {
+    return Resolve(composite, name, path);
   }
   return nullptr;
 }
 
-inline ::Smp::IObject *ResolveComponent(const ::Smp::IObject *object,
+inline ::Smp::IObject *ResolveReference(const ::Smp::IObject *object,
                                         ::Smp::String8 name,
                                         ::Smp::String8 path) {
-  if (auto const *composite = dynamic_cast<const ::Smp::IComposite *>(object)) {
-    if (auto *result = Resolve(composite, name, path)) {
-      return result;
-    }
-  }
-
-  // check reference last as references are not unique
   if (auto const *aggregate = dynamic_cast<const ::Smp::IAggregate *>(object)) {
-    if (auto *result = Resolve(aggregate, name, path)) {
-      return result;
-    }
+    return Resolve(aggregate, name, path);
   }
   return nullptr;
 }
@@ -432,11 +427,23 @@ std::string GetPath(const ::Smp::IObject *obj) {
     }
   }
 
+  // a child component may have the name of another element
+  if (separator == '/') {
+    if (auto *result = ResolveChild(parent, segment.c_str(), path)) {
+      return result;
+    }
+  }
   if (auto *result = Resolve(parent, segment.c_str(), path)) {
     return result;
   }
-  if (separator == '/' || separator == '\0') {
-    return ResolveComponent(parent, segment.c_str(), path);
+  if (separator == '\0') {
+    if (auto *result = ResolveChild(parent, segment.c_str(), path)) {
+      return result;
+    }
+  }
+  // check reference last as references are not unique
+  if (separator != '.') {
+    return ResolveReference(parent, segment.c_str(), path);
   }
   return nullptr;
 }
-- 
2.43.0


From d14697491d00eaa80dedcf9b7deb952843ac36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 57/66] fix: find no service without a name

---
 src/Xsmp/Simulator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 6c34fdd..9b9c0b5 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -779,6 +779,9 @@ void Simulator::AddService(::Smp::IService *service) {
 }
 
 ::Smp::IService *Simulator::GetService(::Smp::String8 name) const {
+  if (!name) {
+    return nullptr;
+  }
   auto it = _services.find(name);
   return it != _services.end() ? *it : nullptr;
 }
-- 
2.43.0


From e8ed9d005c4a0aec8ddc790ccfcdbb67faea2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 58/66] fix: keep nothing of a factory whose registration
 failed

When memory ran out in the middle, the factory was found by some of the
lookups although it was deleted.
---
 src/Xsmp/FactoryCollection.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/FactoryCollection.cpp b/src/Xsmp/FactoryCollection.cpp
index 1ab8aa5..ab4b1d9 100644
--- a/src/Xsmp/FactoryCollection.cpp
+++ b/src/Xsmp/FactoryCollection.cpp
@@ -62,9 +62,21 @@ void FactoryCollection::Add(::Smp::IFactory *factory) {
     ::Xsmp::Exception::throwDuplicateUuid(this, it->second.get(),
                                           factory->GetName());
   }
-  _uuid_map.try_emplace(factory->GetUuid(), std::move(factoryPointer));
-  _factory_map.try_emplace(factory->GetName(), factory);
-  _factories.push_back(factory);
+  const auto [entry, added] =
+      _factory_map.try_emplace(factory->GetName(), factory);
+  try {
+    _factories.push_back(factory);
+    _uuid_map.try_emplace(factory->GetUuid(), std::move(factoryPointer));
+  } catch (...) {
+    // a factory that is not registered must not be found
+    if (!_factories.empty() && _factories.back() == factory) {
+      _factories.pop_back();
+    }
+    if (added) {
+      _factory_map.erase(entry);
+    }
+    throw;
+  }
 }
 
 } // namespace Xsmp
-- 
2.43.0


From bb7de774ada363627bde88c9d9d3126f0f806eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 59/66] fix: do not refuse a service that has been added

AddService failed when memory ran out for the message about the
registration, but the service was part of the simulator.
---
 src/Xsmp/Simulator.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 9b9c0b5..4e0167f 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -763,11 +763,15 @@ void Simulator::AddService(::Smp::IService *service) {
     }
     value = dynamic_cast<std::remove_reference_t<decltype(value)>>(service);
     if (value && _logger) {
-      _logger->Log(
-          this,
-          ("Service '" + ::Xsmp::Helper::TypeName(value) + "' registered.")
-              .c_str(),
-          ::Smp::Services::ILogger::LMK_Information);
+      try {
+        _logger->Log(
+            this,
+            ("Service '" + ::Xsmp::Helper::TypeName(value) + "' registered.")
+                .c_str(),
+            ::Smp::Services::ILogger::LMK_Information);
+      } catch (...) {
+        // the service has been added, with or without a message
+      }
     }
   };
   RegisterService(_logger);
-- 
2.43.0


From ba306242b07188d14353aa40aaf2f2e972a86f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 60/66] fix: do not end the process when publishing again
 without memory

The description is copied, which may fail.
---
 src/Xsmp/Publication/Operation.cpp | 3 +--
 src/Xsmp/Publication/Operation.h   | 2 +-
 src/Xsmp/Publication/Property.cpp  | 3 +--
 src/Xsmp/Publication/Property.h    | 2 +-
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..0a314b0 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -183,8 +183,7 @@ void Operation::Invoke(::Smp::IRequest *request) {
 
 void Operation::DeleteRequest(::Smp::IRequest *request) { delete request; }
 
-void Operation::Update(::Smp::String8 description,
-                       ::Smp::ViewKind view) noexcept {
+void Operation::Update(::Smp::String8 description, ::Smp::ViewKind view) {
   _description = description;
   _view = view;
   _returnParameter = {};
diff --git a/src/Xsmp/Publication/Operation.h b/src/Xsmp/Publication/Operation.h
index c735b4e..bdaa1f4 100644
--- a/src/Xsmp/Publication/Operation.h
+++ b/src/Xsmp/Publication/Operation.h
@@ -140,7 +140,7 @@ private:
   /// The parameters(including the return parameter) are reinitialized
   /// @param description the new Operation description
   /// @param view the new Operation view
-  void Update(::Smp::String8 description, ::Smp::ViewKind view) noexcept;
+  void Update(::Smp::String8 description, ::Smp::ViewKind view);
 
   class Parameter final : public ::Smp::IParameter {
   public:
diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..67c0df3 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -187,8 +187,7 @@ void Property::SetValue(::Smp::AnySimple value) {
 
 void Property::Update(::Smp::String8 description,
                       ::Smp::Publication::IType *type,
-                      ::Smp::AccessKind accessKind,
-                      ::Smp::ViewKind view) noexcept {
+                      ::Smp::AccessKind accessKind, ::Smp::ViewKind view) {
   _description = description;
   _type = type;
   _accessKind = accessKind;
diff --git a/src/Xsmp/Publication/Property.h b/src/Xsmp/Publication/Property.h
index fbb9bcf..19e41e7 100644
--- a/src/Xsmp/Publication/Property.h
+++ b/src/Xsmp/Publication/Property.h
@@ -99,7 +99,7 @@ private:
   /// @param accessKind the new Property accesskind
   /// @param view the new Property view
   void Update(::Smp::String8 description, ::Smp::Publication::IType *type,
-              ::Smp::AccessKind accessKind, ::Smp::ViewKind view) noexcept;
+              ::Smp::AccessKind accessKind, ::Smp::ViewKind view);
   ::Xsmp::cstring _name;
   ::Xsmp::cstring _description;
   ::Smp::IObject *_parent;
-- 
2.43.0


From 61cefc9ceaa711a99aa876bd30164105f5145a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 61/66] fix: report the invalid and the expected type of
 InvalidAnyType the right way round

---
 src/Smp/AnySimple.cpp            | 56 ++++++++++++++++----------------
 src/Xsmp/EventSink.cpp           |  4 +--
 src/Xsmp/Publication/Request.cpp |  4 +--
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 02e8f35..892e08b 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -658,23 +658,23 @@ AnySimple::operator ::Smp::Bool() const {
   case PrimitiveTypeKind::PTK_String8:
     return this->value.string8Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Bool);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Bool,
+                                           type);
   }
 }
 
 AnySimple::operator ::Smp::Char8() const {
   if (type != PrimitiveTypeKind::PTK_Char8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Char8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Char8, type);
   }
   return this->value.char8Value;
 }
 
 AnySimple::operator ::Smp::String8() const {
   if (type != PrimitiveTypeKind::PTK_String8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_String8);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_String8, type);
   }
   return this->value.string8Value;
 }
@@ -711,8 +711,8 @@ AnySimple::operator ::Smp::UInt8() const {
     return convertIntegral<::Smp::UInt8>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_UInt8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt8, type);
   }
 }
 
@@ -747,8 +747,8 @@ AnySimple::operator ::Smp::UInt16() const {
     return convertIntegral<::Smp::UInt16>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt16, type);
   }
 }
 
@@ -782,8 +782,8 @@ AnySimple::operator ::Smp::UInt32() const {
     return convertIntegral<::Smp::UInt32>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt32, type);
   }
 }
 
@@ -816,8 +816,8 @@ AnySimple::operator ::Smp::UInt64() const {
   case PrimitiveTypeKind::PTK_UInt64:
     return this->value.uInt64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt64, type);
   }
 }
 
@@ -853,8 +853,8 @@ AnySimple::operator ::Smp::Int8() const {
     return convertIntegral<::Smp::Int8>(value.uInt64Value, type,
                                         PrimitiveTypeKind::PTK_Int8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int8,
+                                           type);
   }
 }
 
@@ -888,8 +888,8 @@ AnySimple::operator ::Smp::Int16() const {
     return convertIntegral<::Smp::Int16>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int16, type);
   }
 }
 
@@ -921,8 +921,8 @@ AnySimple::operator ::Smp::Int32() const {
     return convertIntegral<::Smp::Int32>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int32, type);
   }
 }
 
@@ -950,8 +950,8 @@ AnySimple::operator ::Smp::Int64() const {
     return convertIntegral<::Smp::Int64>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int64);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int64, type);
   }
 }
 
@@ -984,8 +984,8 @@ AnySimple::operator ::Smp::Float32() const {
     return convertFloat<::Smp::Float32>(value.float64Value, type,
                                         PrimitiveTypeKind::PTK_Float32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float32);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float32, type);
   }
 }
 
@@ -1014,8 +1014,8 @@ AnySimple::operator ::Smp::Float64() const {
   case PrimitiveTypeKind::PTK_Float64:
     return this->value.float64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float64);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float64, type);
   }
 }
 
@@ -1025,8 +1025,8 @@ AnySimple::operator ::Smp::Float64() const {
     this->value.string8Value = nullptr;
     return result;
   }
-  ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                         PrimitiveTypeKind::PTK_String8);
+  ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                         PrimitiveTypeKind::PTK_String8, type);
 }
 
 ::Smp::PrimitiveTypeKind AnySimple::GetType() const noexcept { return type; }
diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 2728cb8..1b51a66 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -35,8 +35,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(sender, type->GetPrimitiveTypeKind(),
+                                           value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From 0172dcfd2e3303b2112dd9342e612e957ec5e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 62/66] fix: report that the request for setting a property has
 one parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index 67c0df3..8818201 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From 8c5e232c53737a6d8d0fc02d2cc819c0eef3aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 63/66] fix: do not leave a destroyed field as the sender of
 InvalidFieldType

The exception is thrown while the field is being constructed.
---
 include/Xsmp/Exception.h |  5 +++++
 include/Xsmp/Field.h     |  2 +-
 src/Xsmp/Exception.cpp   | 12 +++++++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/Xsmp/Exception.h b/include/Xsmp/Exception.h
index c876f55..4ed9528 100644
--- a/include/Xsmp/Exception.h
+++ b/include/Xsmp/Exception.h
@@ -228,6 +228,11 @@ throwEntryPointAlreadySubscribed(const ::Smp::IObject *sender,
 
 [[noreturn]] void throwInvalidFieldType(const ::Smp::IObject *sender,
                                         const ::Smp::Uuid &uuid);
+/// to use while the field is being constructed: it does not live as long as the
+/// exception and cannot be its sender
+[[noreturn]] void throwInvalidFieldType(const ::Smp::IObject *sender,
+                                        const ::Smp::Uuid &uuid,
+                                        const ::Smp::IField *field);
 [[noreturn]] void throwInvalidFieldType(const ::Smp::IObject *sender,
                                         const ::Smp::Publication::IType *type);
 [[noreturn]] void throwInvalidFieldType(const ::Smp::IObject *sender,
diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index c31bba8..627daae 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -119,7 +119,7 @@ const T *GetType(const ::Smp::IField *field,
       return type;
     }
   }
-  ::Xsmp::Exception::throwInvalidFieldType(field, typeUuid);
+  ::Xsmp::Exception::throwInvalidFieldType(field->GetParent(), typeUuid, field);
 }
 
 template <class T, class = void>
diff --git a/src/Xsmp/Exception.cpp b/src/Xsmp/Exception.cpp
index b79eeb7..2c04d29 100644
--- a/src/Xsmp/Exception.cpp
+++ b/src/Xsmp/Exception.cpp
@@ -1126,9 +1126,10 @@ class InvalidFieldType final : public Exception,
                                public ::Smp::InvalidFieldType {
 public:
   explicit InvalidFieldType(const ::Smp::IObject *sender,
-                            const ::Smp::Uuid &uuid)
+                            const ::Smp::Uuid &uuid,
+                            const ::Smp::IObject *field)
       : Exception(sender, __func__, "Cannot publish a field with invalid type",
-                  "The type UUID '", uuid, "' is invalid for field '", sender,
+                  "The type UUID '", uuid, "' is invalid for field '", field,
                   "'.") {}
   explicit InvalidFieldType(const ::Smp::IObject *sender,
                             ::Smp::PrimitiveTypeKind kind)
@@ -1578,7 +1579,12 @@ void throwInvalidParameterValue(const ::Smp::IObject *sender,
 
 void throwInvalidFieldType(const ::Smp::IObject *sender,
                            const ::Smp::Uuid &uuid) {
-  throw InvalidFieldType(sender, uuid);
+  throw InvalidFieldType(sender, uuid, sender);
+}
+void throwInvalidFieldType(const ::Smp::IObject *sender,
+                           const ::Smp::Uuid &uuid,
+                           const ::Smp::IField *field) {
+  throw InvalidFieldType(sender, uuid, field);
 }
 void throwInvalidFieldType(const ::Smp::IObject *sender,
                            const ::Smp::Publication::IType *type) {
-- 
2.43.0


From 87823a2024569151577a823746145201611e7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:25 +0000
Subject: [PATCH 64/66] fix: leave the schedule unchanged when an event cannot
 be posted

When memory ran out in the middle, an event that was refused was known or
even executed, an empty list of events was left in the table and the
execution ended in undefined behaviour, and an event whose time could not
be changed was lost.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 96 ++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index c2a8180..e1333a5 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -67,6 +67,49 @@ namespace Xsmp::Services {
 static constexpr ::Smp::Duration MaxDuration =
     std::numeric_limits<::Smp::Duration>::max();
 
+namespace {
+
+/// Add an event and post it: nothing is kept of the event when it cannot be
+/// posted.
+template <typename Events, typename Event, typename Post>
+void AddOrForget(Events &events, ::Smp::Services::EventId eventId,
+                 const Event &event, Post post) {
+  auto it = events.try_emplace(eventId, event).first;
+  try {
+    post();
+  } catch (...) {
+    events.erase(it);
+    throw;
+  }
+}
+
+/// Post an event in a table, or leave the table unchanged.
+template <typename Table>
+void Schedule(Table &table, ::Smp::Duration time,
+              ::Smp::Services::EventId eventId) {
+  auto it = table.try_emplace(time).first;
+  try {
+    it->second.emplace(eventId);
+  } catch (...) {
+    if (it->second.empty()) {
+      table.erase(it);
+    }
+    throw;
+  }
+}
+
+void LogPosted(const ::Smp::ISimulator *simulator,
+               const ::Smp::IEntryPoint *entryPoint) {
+  try {
+    simulator->GetLogger()->Log(entryPoint, "Event posted",
+                                ::Smp::Services::ILogger::LMK_Debug);
+  } catch (...) {
+    // the event has been posted, with or without a message
+  }
+}
+
+} // namespace
+
 XsmpScheduler::XsmpScheduler(::Smp::String8 name, ::Smp::String8 description,
                              ::Smp::IComposite *parent,
                              ::Smp::ISimulator *simulator)
@@ -143,11 +186,11 @@ XsmpScheduler::AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) {
   const std::scoped_lock lck{_eventsMutex};
   ++_lastEventId;
   auto time = GetSimulator()->GetTimeKeeper()->GetSimulationTime();
-  _events.try_emplace(_lastEventId,
-                      Event{entryPoint, time, time, 0, 0,
-                            ::Smp::Services::TimeKind::TK_SimulationTime});
+  AddOrForget(_events, _lastEventId,
+              Event{entryPoint, time, time, 0, 0,
+                    ::Smp::Services::TimeKind::TK_SimulationTime},
+              [this]() { _immediate_events.emplace(_lastEventId); });
 
-  _immediate_events.emplace(_lastEventId);
   _holdCv.notify_all();
   return _lastEventId;
 }
@@ -170,14 +213,14 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   }
 
   ++_lastEventId;
-  _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
-                                          cycleTime, repeat, kind});
-
-  _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
+  AddOrForget(_events, _lastEventId,
+              Event{entryPoint, simulationTime, time, cycleTime, repeat, kind},
+              [this, simulationTime]() {
+                Schedule(_events_table, simulationTime, _lastEventId);
+              });
   _holdCv.notify_all();
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  LogPosted(GetSimulator(), entryPoint);
 
   return _lastEventId;
 }
@@ -237,17 +280,17 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     // create the event
     const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
     eventId = ++_lastEventId;
-    _events.try_emplace(eventId,
-                        Event{entryPoint, zuluTime, zuluTime, cycleTime, repeat,
-                              ::Smp::Services::TimeKind::TK_ZuluTime});
-
-    // insert the event in the zulu event table
-    _zulu_events_table.try_emplace(zuluTime).first->second.emplace(eventId);
+    AddOrForget(_events, eventId,
+                Event{entryPoint, zuluTime, zuluTime, cycleTime, repeat,
+                      ::Smp::Services::TimeKind::TK_ZuluTime},
+                [this, zuluTime, eventId]() {
+                  // insert the event in the zulu event table
+                  Schedule(_zulu_events_table, zuluTime, eventId);
+                });
   }
   _zuluCv.notify_one();
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  LogPosted(GetSimulator(), entryPoint);
   return eventId;
 }
 
@@ -262,12 +305,18 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  Unschedule(eventId, it->second);
 
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
+    Unschedule(eventId, it->second);
     Remove(it);
     return;
   }
+  // nothing is changed if the event cannot be posted at the new time
+  Schedule(_events_table, simulationTime, eventId);
+  if (it->second.nextScheduleSimulationTime != simulationTime ||
+      _immediate_events.count(eventId)) {
+    Unschedule(eventId, it->second);
+  }
   if (eventId == _currentEventId) {
     _currentEventRescheduled = true;
   }
@@ -275,7 +324,6 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   it->second.nextScheduleSimulationTime = simulationTime;
   it->second.time = time;
 
-  _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
   _holdCv.notify_all();
 }
 
@@ -319,20 +367,24 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    Unschedule(event, it->second);
 
     if (zuluTime < currentZulu) {
+      Unschedule(event, it->second);
       Remove(it);
       // TODO log warning
       return;
     }
+    // nothing is changed if the event cannot be posted at the new time
+    Schedule(_zulu_events_table, zuluTime, event);
+    if (it->second.nextScheduleSimulationTime != zuluTime) {
+      Unschedule(event, it->second);
+    }
     if (event == _currentEventId) {
       _currentEventRescheduled = true;
     }
 
     it->second.nextScheduleSimulationTime = zuluTime;
     it->second.time = zuluTime;
-    _zulu_events_table.try_emplace(zuluTime).first->second.emplace(event);
   }
   _zuluCv.notify_one();
 }
-- 
2.43.0


From 680e18ea172aac31d2adea08aada6e50e8a49bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 65/66] fix: keep the identifiers of the events when a restore
 runs out of memory

---
 src/Xsmp/Services/XsmpEventManager.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 6ac7970..2522336 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -216,15 +216,16 @@ void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
   auto subscriptions = _subscriptions.read().get();
   ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, subscriptions);
 
+  // rebuild _ids map from _events
+  std::unordered_map<::Smp::Services::EventId, const std::string &> ids;
+  for (const auto &[name, id] : events) {
+    ids.try_emplace(id, name);
+  }
+
   auto eventsAccess = _events.write();
   eventsAccess.get() = std::move(events);
   _subscriptions.write().get() = std::move(subscriptions);
-  // rebuild _ids map from _events
-  auto idsAccess = _ids.write();
-  idsAccess.get().clear();
-  for (const auto &[name, id] : eventsAccess.get()) {
-    idsAccess.get().try_emplace(id, name);
-  }
+  _ids.write().get() = std::move(ids);
 }
 
 void XsmpEventManager::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From 863b2286175c0fca71b27a639c114347fec15200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:50 +0000
Subject: [PATCH 66/66] fix: finalise every library that has been initialised

---
 src/Xsmp/Simulator.cpp | 37 +++++++++++++++++++++++--------------
 src/Xsmp/Simulator.h   |  2 +-
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 4e0167f..32a98bf 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -40,6 +40,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <memory>
 #include <string>
 #include <type_traits>
 #include <utility>
@@ -851,7 +852,13 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
         ("Loading '" + std::string(libraryPath) + "' library ...").c_str(),
         ::Smp::Services::ILogger::LMK_Debug);
   }
-  void *handle = ::Xsmp::LoadLibrary(libraryPath);
+  // an initialised library has to be finalised: nothing may fail between its
+  // initialisation and its registration
+  decltype(_libraries) library;
+  library.emplace_back(libraryPath, nullptr);
+  // the library is closed if it cannot be initialised
+  std::unique_ptr<void, void (*)(void *)> handle{
+      ::Xsmp::LoadLibrary(libraryPath), &::Xsmp::CloseLibrary};
 
   if (!handle) {
     auto error = ::Xsmp::GetLastError();
@@ -863,7 +870,7 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
 
   auto initialise = ::Xsmp::GetSymbol<bool (*)(
       ::Smp::ISimulator *simulator,
-      ::Smp::Publication::ITypeRegistry *type_registry)>(handle,
+      ::Smp::Publication::ITypeRegistry *type_registry)>(handle.get(),
                                                          initialiseSymbol);
 
   if (!initialise) {
@@ -872,7 +879,6 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
         "' does not provide function 'bool Initialize(::Smp::ISimulator *, "
         "::Smp::Publication::ITypeRegistry *)': " +
         ::Xsmp::GetLastError();
-    ::Xsmp::CloseLibrary(handle);
     if (_logger) {
       _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
     }
@@ -881,34 +887,37 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
 
   // check that Finalise exist
   if (!::Xsmp::GetSymbol<bool (*)(::Smp::ISimulator *simulator)>(
-          handle, finaliseSymbol)) {
+          handle.get(), finaliseSymbol)) {
     const std::string msg = std::string("Library '") + libraryPath +
                             "' does not provide function 'bool Finalise()': " +
                             ::Xsmp::GetLastError();
-    ::Xsmp::CloseLibrary(handle);
     if (_logger) {
       _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
     }
     ::Xsmp::Exception::throwInvalidLibrary(this, libraryPath, msg);
   }
 
-  if ((*initialise)(this, &_typeRegistry)) {
+  library.back().second = handle.release();
+  if (!(*initialise)(this, &_typeRegistry)) {
+    const std::string msg =
+        std::string("Initialise() of library '") + libraryPath + "' failed.";
     if (_logger) {
+      _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+    }
+    ::Xsmp::Exception::throwInvalidLibrary(this, libraryPath, msg);
+  }
+  _libraries.splice(_libraries.end(), library);
+  if (_logger) {
+    try {
       _logger->Log(
           this,
           ("Library '" + std::string(libraryPath) + "' successfully loaded.")
               .c_str(),
           ::Smp::Services::ILogger::LMK_Debug);
+    } catch (...) {
+      // the library has been loaded, with or without a message
     }
-  } else {
-    const std::string msg =
-        std::string("Initialise() of library '") + libraryPath + "' failed.";
-    if (_logger) {
-      _logger->Log(this, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
-    }
-    ::Xsmp::Exception::throwInvalidLibrary(this, libraryPath, msg);
   }
-  _libraries.emplace_back(libraryPath, handle);
 }
 
 } // namespace Xsmp
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index e623a9d..e880327 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -400,7 +400,7 @@ private:
   ::Xsmp::cstring _name;
   ::Xsmp::cstring _description;
 
-  std::vector<std::pair<std::string, void *>> _libraries;
+  std::list<std::pair<std::string, void *>> _libraries;
 
   std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
-- 
2.43.0

