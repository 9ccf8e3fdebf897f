From 98cc631a4d8cb23eb025f598e9b8318380667c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/38] fix: Timer.cpp: missing semicolon after assert, the
 timer did not compile

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From 5197db98b106af973cad5ea3d1a634c589e8e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/38] fix: ThreadSafeQueue: change and check the closed flag
 under the lock

close() could set the flag and notify between a waiter's check and its going to
sleep, leaving it (and so Processor::run) blocked for ever; push() could add an
item to a queue that had just been closed and cleared, leaving its waiter
stranded and the item to be executed after reuse; a reopen between the wake-up
and the second check made wait() pop an empty queue.
---
 include/maf/threading/ThreadSafeQueue.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..16f9ac1 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -22,15 +22,15 @@ class ThreadSafeQueue {
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
   void push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
     }
   }
   void push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
     }
@@ -43,8 +43,8 @@ class ThreadSafeQueue {
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
   void push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
@@ -106,9 +106,15 @@ class ThreadSafeQueue {
     return false;
   }
 
-  void reOpen() { closed_.store(false, std::memory_order_release); }
+  void reOpen() {
+    std::lock_guard lock(queue_);
+    closed_.store(false, std::memory_order_release);
+  }
 
   void close() {
+    // The flag is part of what waiters check under the lock: it must not change
+    // between their check and their going to sleep
+    std::lock_guard lock(queue_);
     bool alreadyClosed = false;
     closed_.compare_exchange_strong(alreadyClosed, true);
     if (!alreadyClosed) {
-- 
2.43.0


From 15c2f451a0856ce28be70f4fa29e0288270bee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 03/38] fix: Processor::connected: a message whose handlers are
 all disconnected is not connected

post() refuses such a message, so the query must not claim there is a handler.
---
 src/common/maf/messaging/Processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..2a37914 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -293,7 +293,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
-- 
2.43.0


From 1c7024ff66c82fc699b8122e06676bfaff19b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 04/38] fix: Processor: do not access message handlers with the
 map of handlers locked

Handlers are locked while they are notified. A handler that posts, connects or asks
for connected() locks the map, so a concurrent post/connect/disconnect of the message
being handled, which locked the map and then the handlers, ended in a deadlock.
---
 src/common/maf/messaging/Processor.cpp | 39 ++++++++++++++------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 2a37914..d19efe3 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -96,30 +96,29 @@ struct ProcessorDataPrv {
     return false;
   }
 
-  void processMessage(const Message &msg) {
-    HandlersPtr handlers;
-    {
-      std::lock_guard lock(msgHandlersMap);
-      auto itHandler = msgHandlersMap->find(msg.type());
-      if (itHandler != msgHandlersMap->end()) {
-        handlers = itHandler->second;
-      }
-    }
+  // Handlers lock themselves while they are notifying, and may come back here
+  // from within a handler. So, except when nobody else can be holding them, they
+  // must not be accessed with the lock of msgHandlersMap held
+  HandlersPtr findHandlers(const MessageID &msgID) {
+    std::lock_guard lock(msgHandlersMap);
+    auto it = msgHandlersMap->find(msgID);
+    return it != msgHandlersMap->end() ? it->second : HandlersPtr{};
+  }
 
-    if (handlers) {
+  void processMessage(const Message &msg) {
+    if (auto handlers = findHandlers(msg.type())) {
       handlers->notify(msg);
     }
   }
 
   bool msgConnected(const MessageID &msgID) {
-    std::lock_guard lock(msgHandlersMap);
-    auto it = msgHandlersMap->find(msgID);
-    return it != msgHandlersMap->end() && it->second->connected();
+    auto handlers = findHandlers(msgID);
+    return handlers && handlers->connected();
   }
 
   void cleanupUnconnectedMsgHandlers() {
     for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      if (!it->second->connected()) {
+      if (it->second.use_count() == 1 && !it->second->connected()) {
         it = msgHandlersMap->erase(it);
       } else {
         ++it;
@@ -367,10 +366,14 @@ Execution Processor::willBlockingExecuteOnThis(Execution exec) {
 MsgConnection Processor::connect(const MessageID &msgid,
                                  MessageProcessingCallback processMsgCallback) {
   using namespace std;
-  lock_guard lock(d_->msgHandlersMap);
-  auto &handlers = (*d_->msgHandlersMap)[msgid];
-  if (!handlers) {
-    handlers = std::make_shared<Handlers>();
+  HandlersPtr handlers;
+  {
+    lock_guard lock(d_->msgHandlersMap);
+    auto &entry = (*d_->msgHandlersMap)[msgid];
+    if (!entry) {
+      entry = std::make_shared<Handlers>();
+    }
+    handlers = entry;
   }
   return new SSConnection(handlers->connect(move(processMsgCallback)));
 }
-- 
2.43.0


From d1b45f65b20e1b25a0b414a2bb9409e41af11387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 05/38] fix: SignalSlots: keep emission sound when slots change
 or fail meanwhile

- a slot that disconnects itself was destroyed while being called
- disconnecting all slots from within a slot invalidated the iteration
- a throwing slot left the signal marked as notifying, unusable for ever
- slots disconnected during an emission were counted as connected until the next one,
  so Processor::post accepted messages without handlers
- connected() waited for a running emission, so two processors whose handlers post to
  each other ended in a deadlock
---
 include/maf/utils/SignalSlots.h | 56 +++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..6a38519 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -1,12 +1,14 @@
 #pragma once
 
 #include <maf/threading/AtomicObject.h>
+#include <maf/utils/CallOnExit.h>
 #include <maf/utils/ExecutorIF.h>
 
 #include "maf/threading/MutexRef.h"
 
 //#include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <list>
@@ -42,6 +44,7 @@ class SingleSlotKeeper {
   bool add(SlotPtrType s) {
     if (!mySlot()) {
       mySlot() = move(s);
+      slotCount_ = 1;
       return true;
     }
     return false;
@@ -61,19 +64,21 @@ class SingleSlotKeeper {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
       notifying_ = true;
-      mySlot()->operator()(args...);
-      notifying_ = false;
+      util::CallOnExit done = [this] { notifying_ = false; };
+      auto slot = mySlot();  // may be disconnected by itself
+      slot->operator()(args...);
     }
   }
 
   bool valid() const { return mySlot() && mySlot()->operator bool(); }
   void clear() {
     if (mySlot()) {
+      slotCount_ = 0;
       mySlot().reset();
     }
   }
   bool has(const SlotPtrType& s) const { return s == mySlot(); }
-  size_t size() const { return mySlot() ? 1 : 0; }
+  size_t size() const { return slotCount_; }
 
   SlotPtrType lastSlot() const { return mySlot(); }
 
@@ -82,6 +87,7 @@ class SingleSlotKeeper {
   const SlotPtrType& mySlot() const { return slots_.front(); }
 
   SlotsType slots_;
+  atomic<size_t> slotCount_ = 0;
   mutable bool notifying_ = false;
 };
 
@@ -93,12 +99,14 @@ class MultiSlotKeeper {
 
   bool add(SlotPtrType s) {
     slots_.push_back(move(s));
+    ++slotCount_;
     return true;
   }
 
   bool addUnique(SlotPtrType s) {
     if (!has(s)) {
       slots_.push_back(move(s));
+      ++slotCount_;
       return true;
     }
     return false;
@@ -108,27 +116,31 @@ class MultiSlotKeeper {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
       notifying_ = true;
-
-      for (auto it = begin(slots_); it != end(slots_);) {
-        if (!*it) {  // this this slot is disconnected;
-          it = slots_.erase(it);
-        } else {
-          std::invoke(*(*it), args...);
-          ++it;
+      util::CallOnExit done = [this] {
+        slots_.remove(nullptr);  // slots that were disconnected by the others
+        notifying_ = false;
+      };
+
+      for (auto it = begin(slots_); it != end(slots_); ++it) {
+        // The slot must live as long as it's being called, even when it is
+        // disconnected by itself
+        if (auto slot = *it) {
+          std::invoke(*slot, args...);
         }
       }
-      notifying_ = false;
     }
   }
 
   bool remove(const SlotPtrType& s) {
     if (!notifying_) {
       if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
+        --slotCount_;
         slots_.erase(i);
         return true;
       }
     } else {
       if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
+        --slotCount_;
         i->reset();
         return true;
       }
@@ -136,20 +148,31 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return slotCount_ != 0; }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    slotCount_ = 0;
+    if (!notifying_) {
+      slots_.clear();
+    } else {
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  size_t size() const { return slotCount_; }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
  protected:
   mutable SlotsType slots_;
+  // Number of connected slots, can be read while the others are notifying
+  atomic<size_t> slotCount_ = 0;
   mutable bool notifying_ = false;
 };
 
@@ -466,9 +489,10 @@ class BasicSignal_ {
 
   void disconnect() { keeper()->clear(); }
 
-  bool connected() const { return keeper()->valid(); }
+  // Neither needs the lock, which is held as long as slots are being notified
+  bool connected() const { return keeper().lockee().size() != 0; }
 
-  size_t connectionCount() const { return keeper()->size(); }
+  size_t connectionCount() const { return keeper().lockee().size(); }
 
  protected:
   template <class OtherKeeper_, class... OtherArgs>
-- 
2.43.0


From ec9b4a2d6f67eb86e832b52aa2a59881aa100884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 06/38] fix: waitableConnect: keep an invocation that came
 while connecting

---
 include/maf/utils/SignalSlots.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 6a38519..9f73cce 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -243,6 +243,12 @@ class Connection {
     return false;
   }
 
+  // True if this was made for a slot of a signal, even when the slot is not
+  // connected any more
+  bool established() const {
+    return hubref_.owner_before(HubRef_{}) || HubRef_{}.owner_before(hubref_);
+  }
+
   bool reconnect() {
     try {
       if (auto ctor = get<ConnectorPtr_>(ctor_)) {
@@ -709,7 +715,8 @@ template <template <class, class...> class Signal_, class SlotKeeper_,
         prom->set_value({args...});
       });
 
-  if (connection.connected()) {
+  // The slot may have been called by another thread already
+  if (connection.established()) {
     FutureType ret(move(connection), move(sl), move(f));
     return ret;
   }
-- 
2.43.0


From 8436d15dfaafd926b528b79f986729135c0acaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 07/38] fix: Processor::create: check and register a
 processor's id in one step

---
 src/common/maf/messaging/Processor.cpp | 4 +---
 src/common/maf/messaging/Router.cpp    | 1 +
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index d19efe3..ceece30 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -175,10 +175,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
   if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
+    if (!Router::instance().addProcessor(comp)) {
       comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
     }
   }
   return comp;
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..2576afa 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -76,6 +76,7 @@ bool Router::addProcessor(ProcessorInstance comp) {
       informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
       notifyAllAboutNewProcessor(*joinedProcessors, comp);
       joinedProcessors->insert(move(comp));
+      return true;
     }
   }
   return false;
-- 
2.43.0


From d6c6adeb38c5125a05e1b88fc369b6f828cdd62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 08/38] fix: Router::sendToAll: do not run handlers with the
 routing table locked

---
 src/common/maf/messaging/Router.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 2576afa..4cd1caa 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -41,8 +41,10 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  // The message is handled right here if it is sent by one of the recipients, so
+  // it must not be sent with the lock held
+  auto recipients = *messageprocessors_.atomic();
+  for (const auto &comp : recipients) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
-- 
2.43.0


From 7f0fcee1091f95852335a1e4121b45b0d360b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 09/38] fix: Router::removeProcessor: do not remove another
 processor that has the same id

---
 src/common/maf/messaging/Router.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4cd1caa..8878d23 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -85,7 +85,17 @@ bool Router::addProcessor(ProcessorInstance comp) {
 }
 
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  auto left = false;
+  {
+    auto joinedProcessors = messageprocessors_.atomic();
+    // Another processor may have got the same id meanwhile
+    if (auto it = joinedProcessors->find(comp);
+        it != joinedProcessors->end() && *it == comp) {
+      joinedProcessors->erase(it);
+      left = true;
+    }
+  }
+  if (left) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
     return true;
-- 
2.43.0


From 91d0b4b4363a0c97bf3c06999eb97d673d2f3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 10/38] fix: Processor: waitable posts run in place only on the
 processor's own thread, not on one of the same id

---
 src/common/maf/messaging/Processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index ceece30..47b6f16 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -277,7 +277,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (this_processor::instance().get() != this) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -316,7 +316,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (this_processor::instance().get() != this) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
-- 
2.43.0


From 6b5c307add3d727e404b816422b514b09177c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 11/38] fix: Observable::connect tells every slot the current
 state

ObservableBasic_ brought the signal's own connect overloads into scope. For
an argument that matches one of them exactly (a std::function, a shared_ptr to
a slot, an object and a method) they were preferred to the observable's
forwarding connect, and such a slot was not told the current state, while a
lambda was.
---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..3ba83cf 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From efe808442a44b08fe82872a6f0d4e3ae10e3e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 12/38] fix: do not crash when a request is answered again or
 after it was aborted

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..820979b 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,9 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
-- 
2.43.0


From f9accb043598c1c674c66fe15e72dfd0499390a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 13/38] fix: report success when a notification reached the
 clients

---
 .../messaging/client-server/ServiceProvider.cpp   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 820979b..e1bd26a 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -137,7 +137,8 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 ActionCallStatus ServiceProvider::broadcastToClients(
     const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
   using AddressList = std::vector<Address>;
-  bool success = false;
+  // nobody to inform is no failure
+  bool success = true;
   AddressList addresses;
 
   {  // locking _regEntriesMap block
@@ -156,12 +157,15 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     auto csMsg = createCSMessage(serviceID(), propertyID, opCode,
                                  RequestIDInvalid, payload);
 
+    success = false;
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &success](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          // success when succeeded to send msg to at least one receiver
+          success = true;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
@@ -186,12 +190,9 @@ ActionCallStatus ServiceProvider::broadcastToClients(
       MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
       busyReceivers = trySendToDestinations(busyReceivers);
     }
-
-    // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success ? ActionCallStatus::Success
+                 : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From d6d92b8aded5f51f69beb021ba4c6ca0beedc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 14/38] fix: call the abort callback of an aborted request
 unlocked

---
 src/common/maf/messaging/client-server/Request.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..db52141 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,8 +71,10 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
+  std::unique_lock lock(_mutex);
   if (!_valid) {
+    // the callback might use this request
+    lock.unlock();
     abortCallback();
   } else {
     _abortCallback = std::move(abortCallback);
-- 
2.43.0


From f960de2eebbbfae2bdd9eefc229b7238c916344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 15/38] fix: report success of further registrations for a
 signal

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..9c5ffa9 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -310,6 +310,8 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
       callback(cachedProperty);
     }
     assign_ptr(callStatus, ActionCallStatus::Success);
+  } else {
+    assign_ptr(callStatus, ActionCallStatus::Success);
   }
 
   return regID;
-- 
2.43.0


From e553bf1ea7b2dfcaa831731c5883da0561b65235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 16/38] fix: a synchronous request waits for its result, not
 for an update

---
 .../client-server/ServiceRequester.cpp        | 21 ++++++++++++-------
 .../client-server/ServiceRequester.h          | 17 ++++++++++-----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 9c5ffa9..bc2d8df 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -177,10 +177,12 @@ RegID ServiceRequester::sendMessageAsync(const OpID &operationID,
                                          OpCode operationCode,
                                          const CSPayloadIFPtr &msgContent,
                                          CSPayloadProcessCallback callback,
-                                         ActionCallStatus *callStatus) {
+                                         ActionCallStatus *callStatus,
+                                         bool onlyResult) {
   auto csMsg = this->createCSMessage(operationID, operationCode, msgContent);
   return storeAndSendRequestToServer(requestEntriesMap_, csMsg,
-                                     std::move(callback), callStatus);
+                                     std::move(callback), callStatus,
+                                     onlyResult);
 }
 
 CSPayloadIFPtr ServiceRequester::sendMessageSync(
@@ -203,7 +205,7 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
       };
 
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
-                                std::move(onSyncMsgCallback), callStatus);
+                                std::move(onSyncMsgCallback), callStatus, true);
 
   if (regID.valid()) {
     try {
@@ -452,9 +454,11 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
       for (auto itRegEntry = regEntries.begin(); itRegEntry != regEntries.end();
            ++itRegEntry) {
         if (itRegEntry->requestID == msg->requestID()) {
-          callback = itRegEntry->callback;
           if (msg->operationCode() != OpCode::PartialRequestUpdate) {
+            callback = itRegEntry->callback;
             regEntries.erase(itRegEntry);
+          } else if (!itRegEntry->onlyResult) {
+            callback = itRegEntry->callback;
           }
           found = true;
           break;
@@ -502,11 +506,12 @@ ActionCallStatus ServiceRequester::sendMessageToServer(
 
 RegID ServiceRequester::storeAndSendRequestToServer(
     RegEntriesMap &regEntriesMap, const CSMessagePtr &outgoingMsg,
-    CSPayloadProcessCallback callback, ActionCallStatus *callStatus) {
+    CSPayloadProcessCallback callback, ActionCallStatus *callStatus,
+    bool onlyResult) {
   RegID regID;
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
-                regID);
+                regID, onlyResult);
 
   outgoingMsg->setRequestID(regID.requestID);
   auto status = sendMessageToServer(outgoingMsg);
@@ -523,13 +528,13 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID) {
+                                       RegID &regID, bool onlyResult) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback));
+  regEntries.emplace_back(regID.requestID, std::move(callback), onlyResult);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 90a15f4..86e0716 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -22,10 +22,15 @@ struct ServiceRequester : public ServiceRequesterIF {
   struct RegEntry {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
+    // whoever waits for the result is not interested in updates before it
+    bool onlyResult = false;
 
     RegEntry() = default;
-    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback)
-        : requestID(requestID), callback(std::move(callback)) {}
+    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
+             bool onlyResult = false)
+        : requestID(requestID),
+          callback(std::move(callback)),
+          onlyResult(onlyResult) {}
   };
 
   struct SyncRegEntry {
@@ -104,7 +109,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID sendMessageAsync(const OpID &operationID, OpCode operationCode,
                          const CSPayloadIFPtr &msgContent,
                          CSPayloadProcessCallback callback,
-                         ActionCallStatus *callStatus);
+                         ActionCallStatus *callStatus, bool onlyResult = false);
 
   CSPayloadIFPtr sendMessageSync(const OpID &operationID, OpCode opCode,
                                  const CSPayloadIFPtr &msgContent,
@@ -123,10 +128,12 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
                                     const CSMessagePtr &outgoingMsg,
                                     CSPayloadProcessCallback callback,
-                                    ActionCallStatus *callStatus);
+                                    ActionCallStatus *callStatus,
+                                    bool onlyResult);
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
-                       CSPayloadProcessCallback callback, RegID &regID);
+                       CSPayloadProcessCallback callback, RegID &regID,
+                       bool onlyResult = false);
 
   size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
-- 
2.43.0


From bf7eed43c20ac810cc8c14f0d66e7ddaaa6322bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 17/38] fix: a request or registration made while the service
 goes away does not stay behind

---
 .../messaging/client-server/ServiceRequester.cpp  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index bc2d8df..b9780f9 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -295,7 +295,12 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
   RegID regID;
   auto sameRegisterCount =
       storeRegEntry(registerEntriesMap_, opID, callback, regID);
-  if (sameRegisterCount == 1) {
+  if (serviceUnavailable()) {
+    // it went after the caller had looked, perhaps before the entry was stored
+    removeRegEntry(registerEntriesMap_, regID);
+    regID.clear();
+    assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
+  } else if (sameRegisterCount == 1) {
     auto registerMessage = createCSMessage(opID, opCode);
 
     registerMessage->setRequestID(regID.requestID);
@@ -512,6 +517,14 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
                 regID, onlyResult);
+  if (serviceUnavailable()) {
+    // it went after the caller had looked, perhaps before the entry was stored:
+    // nobody would ever clear it
+    removeRegEntry(regEntriesMap, regID);
+    regID.clear();
+    assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
+    return regID;
+  }
 
   outgoingMsg->setRequestID(regID.requestID);
   auto status = sendMessageToServer(outgoingMsg);
-- 
2.43.0


From 68cfca32e5b77d8ba057ba810a386cefe5c6bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 18/38] fix: cache a property before telling about it, and
 forget a removed one

---
 .../client-server/ServiceRequester.cpp          | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index b9780f9..2c9e539 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -33,13 +33,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
   if (csMsg && csMsg->serviceID() == serviceID()) {
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
+      case OpCode::StatusRegister:
         onRegistersUpdated(csMsg);
         break;
-      case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
-          cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        }
-      } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
       case OpCode::StatusGet:
@@ -431,6 +427,10 @@ bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
       for (auto &regEntry : it->second) {
         callbacks.push_back(regEntry.callback);
       }
+      // what is told and what is cached must not differ
+      if (msg->operationCode() == OpCode::StatusRegister) {
+        cachePropertyStatus(msg->operationID(), msg->payload());
+      }
     }
   }
 
@@ -590,7 +590,12 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
 
 void ServiceRequester::cachePropertyStatus(const OpID &propertyID,
                                            CSPayloadIFPtr &&property) {
-  propertiesCache_.atomic()->insert_or_assign(propertyID, std::move(property));
+  if (property) {
+    propertiesCache_.atomic()->insert_or_assign(propertyID,
+                                                std::move(property));
+  } else {
+    removeCachedProperty(propertyID);
+  }
 }
 
 void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
-- 
2.43.0


From 37ff23f2384e3a712caddd66185a8ef65a166b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 19/38] fix: reading a property returned nothing while a
 registration had no value yet, and an old value after the service came back

---
 .../maf/messaging/client-server/ServiceRequester.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 2c9e539..865f804 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -244,6 +244,10 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
   if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+    if (newStatus == Availability::Available) {
+      // properties from before it went away are not its properties now
+      propertiesCache_.atomic()->clear();
+    }
     serviceStatus_ = newStatus;
     if (newStatus == Availability::Unavailable) {
       serviceStatus_ = Availability::Unavailable;
@@ -389,9 +393,9 @@ CSPayloadIFPtr ServiceRequester::getStatus(const OpID &propertyID,
   if (serviceUnavailable()) {
     assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
     return getCachedProperty(propertyID);
-  } else if (subscribingProperty(propertyID)) {
+  } else if (auto cachedProperty = getCachedProperty(propertyID)) {
     assign_ptr(callStatus, ActionCallStatus::Success);
-    return getCachedProperty(propertyID);
+    return cachedProperty;
   } else {
     SET_ERROR_AND_RETURN_IF(serviceUnavailable(), callStatus,
                             ActionCallStatus::ServiceUnavailable, {});
@@ -408,8 +412,8 @@ ActionCallStatus ServiceRequester::getStatus(
   if (serviceUnavailable()) {
     callback(getCachedProperty(propertyID));
     callstatus = ActionCallStatus::ServiceUnavailable;
-  } else if (subscribingProperty(propertyID)) {
-    callback(getCachedProperty(propertyID));
+  } else if (auto cachedProperty = getCachedProperty(propertyID)) {
+    callback(cachedProperty);
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
                      nullptr);
-- 
2.43.0


From 662a88270f94656e70e856a110a939ea2655da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 20/38] fix: deadlock of an observer of the service status that
 uses the client

---
 .../messaging/client-server/ClientBase.cpp    | 20 +++++++++++++------
 .../client-server/ServiceRequester.cpp        | 12 +++++------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..345dfd3 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -14,8 +14,9 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // observers use this client: don't tell them while it is locked
+    auto requesters = *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +29,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  ServiceRequesterIFPtr requester;
+  {
+    std::lock_guard lock(_requestersMap);
+    auto itProxy = _requestersMap->find(sid);
+    if (itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  // observers use this client: don't tell them while it is locked
+  if (requester) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 865f804..6c64093 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -261,17 +261,16 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
 void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
                                                        Availability oldStatus,
                                                        Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
+  // observers may register or unregister observers
+  auto observers = *serviceStatusObservers_.atomic();
+  for (auto &observer : observers) {
     try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
+      observer->onServiceStatusChanged(sid, oldStatus, newStatus);
     } catch (const UnavailableException &) {
       MAF_LOGGER_WARN(
           "An observer of ", sid,
           " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
+      unregisterServiceStatusObserver(observer);
     } catch (const std::exception &e) {
       MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
                       " when notify service status change of ", sid);
@@ -282,7 +281,6 @@ void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
           sid);
       throw;
     }
-    ++itO;
   }
 }
 
-- 
2.43.0


From f49e6ee17864d53d0590b57585daef7e7e3c542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 21/38] fix: a new observer of the service status could end up
 with an old status, or terminate the program

---
 .../messaging/client-server/ServiceRequester.cpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 6c64093..888161e 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -130,8 +130,18 @@ void ServiceRequester::registerServiceStatusObserver(
       // dont execute notification in critical section,
       // that might block other thread to update service status
       // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
+      try {
+        auto toldStatus = Availability::Unknown;
+        do {
+          observer->onServiceStatusChanged(serviceID(), toldStatus,
+                                           currentServiceStatus);
+          toldStatus = currentServiceStatus;
+          // it might have changed, and told so, before the observer was told
+          currentServiceStatus = serviceStatus();
+        } while (currentServiceStatus != toldStatus);
+      } catch (const UnavailableException &) {
+        unregisterServiceStatusObserver(observer);
+      }
     }
   }
 }
-- 
2.43.0


From 7dbb4084cf440f0a750f50ecb48cbc27d5e91f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 22/38] fix: a further registration for a property could end up
 with an old value

---
 .../client-server/ServiceRequester.cpp         | 18 +++++++++++++++---
 .../messaging/client-server/ServiceRequester.h |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 888161e..18fd6ab 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -321,8 +321,13 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
 
     assign_ptr(callStatus, status);
   } else if (opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
+    CSPayloadIFPtr told;
+    // it might change, and the callback be told so, before it is told this one
+    for (auto cached = lookupCachedProperty(opID); cached && cached != told;
+         cached = lookupCachedProperty(opID)) {
+      auto tell = callback;
+      tell(CSPayloadIFPtr(cached->clone()));
+      told = std::move(cached);
     }
     assign_ptr(callStatus, ActionCallStatus::Success);
   } else {
@@ -592,10 +597,17 @@ size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
 
 CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
+  auto cachedProperty = lookupCachedProperty(propertyID);
+  return cachedProperty ? CSPayloadIFPtr{cachedProperty->clone()}
+                        : CSPayloadIFPtr{};
+}
+
+CSPayloadIFPtr ServiceRequester::lookupCachedProperty(
+    const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
   if (auto itProp = propertiesCache_->find(propertyID);
       itProp != propertiesCache_->end()) {
-    return CSPayloadIFPtr{itProp->second->clone()};
+    return itProp->second;
   }
   return {};
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 86e0716..609eebe 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -138,6 +138,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
+  CSPayloadIFPtr lookupCachedProperty(const OpID &propertyID) const;
   void cachePropertyStatus(const OpID &propertyID, CSPayloadIFPtr &&property);
   void removeCachedProperty(const OpID &propertyID);
   bool cachedPropertyUpToDate(const OpID &propertyID) const;
-- 
2.43.0


From ee2123a8dab7f1d78939d87e8723f320647eb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 23/38] fix: unregistering the last registration took one made
 meanwhile with it

---
 .../client-server/ServiceRequester.cpp        | 65 +++++++++++++++----
 .../client-server/ServiceRequester.h          | 11 +++-
 2 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 18fd6ab..e5e145b 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -302,10 +302,10 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
 
   RegID regID;
   auto sameRegisterCount =
-      storeRegEntry(registerEntriesMap_, opID, callback, regID);
+      storeRegEntry(registerEntriesMap_, opID, callback, regID, opCode);
   if (serviceUnavailable()) {
     // it went after the caller had looked, perhaps before the entry was stored
-    removeRegEntry(registerEntriesMap_, regID);
+    removeRegistration(regID);
     regID.clear();
     assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
   } else if (sameRegisterCount == 1) {
@@ -368,15 +368,14 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
   auto callstatus = ActionCallStatus::Success;
   if (regID.valid()) {
     auto propertyID = regID.opID;
-    auto totalRemainer = removeRegEntry(registerEntriesMap_, regID);
+    auto totalRemainer = removeRegistration(regID);
     if (totalRemainer == 0) {
       // send unregister if no one from client side interested
       // in this propertyID anymore
-      removeCachedProperty(propertyID);
       if (serviceUnavailable()) {
         callstatus = ActionCallStatus::ServiceUnavailable;
       } else {
-        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+        sendUnregister(propertyID);
       }
     }
   } else {
@@ -392,9 +391,12 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
   if (serviceUnavailable()) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
-    registerEntriesMap_.atomic()->erase(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
-    removeCachedProperty(propertyID);
+    {
+      std::lock_guard lock(registerEntriesMap_);
+      registerEntriesMap_->erase(propertyID);
+      removeCachedProperty(propertyID);
+    }
+    sendUnregister(propertyID);
   }
 
   return callstatus;
@@ -533,7 +535,7 @@ RegID ServiceRequester::storeAndSendRequestToServer(
   RegID regID;
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
-                regID, onlyResult);
+                regID, outgoingMsg->operationCode(), onlyResult);
   if (serviceUnavailable()) {
     // it went after the caller had looked, perhaps before the entry was stored:
     // nobody would ever clear it
@@ -558,22 +560,57 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID, bool onlyResult) {
+                                       RegID &regID, OpCode opCode,
+                                       bool onlyResult) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback), onlyResult);
+  regEntries.emplace_back(regID.requestID, std::move(callback), opCode,
+                          onlyResult);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
 
+size_t ServiceRequester::removeRegistration(const RegID &regID) {
+  std::lock_guard lock(registerEntriesMap_);
+  auto remaining = removeRegEntry(*registerEntriesMap_, regID);
+  if (remaining == 0) {
+    removeCachedProperty(regID.opID);
+  }
+  return remaining;
+}
+
+void ServiceRequester::sendUnregister(const OpID &opID) {
+  sendMessageToServer(createCSMessage(opID, OpCode::Unregister));
+
+  // somebody who has registered meanwhile must not be unregistered with it
+  CSMessagePtr registerMessage;
+  {
+    std::lock_guard lock(registerEntriesMap_);
+    auto it = registerEntriesMap_->find(opID);
+    if (it != registerEntriesMap_->end() && !it->second.empty()) {
+      auto &regEntry = it->second.front();
+      registerMessage = createCSMessage(opID, regEntry.opCode);
+      registerMessage->setRequestID(regEntry.requestID);
+    }
+  }
+  if (registerMessage) {
+    sendMessageToServer(registerMessage);
+  }
+}
+
 size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
                                         const RegID &regID) {
   std::lock_guard lock(regInfoEntriesMap);
-  auto itEntries = regInfoEntriesMap->find(regID.opID);
-  if (itEntries != regInfoEntriesMap->end()) {
+  return removeRegEntry(*regInfoEntriesMap, regID);
+}
+
+size_t ServiceRequester::removeRegEntry(
+    RegEntriesMap::DataType &regInfoEntriesMap, const RegID &regID) {
+  auto itEntries = regInfoEntriesMap.find(regID.opID);
+  if (itEntries != regInfoEntriesMap.end()) {
     auto &entries = itEntries->second;
     for (auto itEntry = std::begin(entries); itEntry != std::end(entries);) {
       if (itEntry->requestID == regID.requestID) {
@@ -586,7 +623,7 @@ size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
     RegID::reclaimID(regID, this->idMgr_);
 
     if (entries.empty()) {
-      regInfoEntriesMap->erase(itEntries);
+      regInfoEntriesMap.erase(itEntries);
       return 0;
     } else {
       return itEntries->second.size();
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 609eebe..0fa02c5 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -22,14 +22,17 @@ struct ServiceRequester : public ServiceRequesterIF {
   struct RegEntry {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
+    // what it was registered with
+    OpCode opCode = OpCode::Invalid;
     // whoever waits for the result is not interested in updates before it
     bool onlyResult = false;
 
     RegEntry() = default;
     RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
-             bool onlyResult = false)
+             OpCode opCode, bool onlyResult)
         : requestID(requestID),
           callback(std::move(callback)),
+          opCode(opCode),
           onlyResult(onlyResult) {}
   };
 
@@ -123,6 +126,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   void onRequestResult(const CSMessagePtr &msg);
   void clearAllRequests();
   void clearAllRegisterEntries();
+  size_t removeRegistration(const RegID &regID);
+  void sendUnregister(const OpID &opID);
   ActionCallStatus sendMessageToServer(const CSMessagePtr &outgoingMsg);
 
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
@@ -133,9 +138,11 @@ struct ServiceRequester : public ServiceRequesterIF {
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
                        CSPayloadProcessCallback callback, RegID &regID,
-                       bool onlyResult = false);
+                       OpCode opCode, bool onlyResult = false);
 
   size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
+  size_t removeRegEntry(RegEntriesMap::DataType &regInfoEntries,
+                        const RegID &regID);
 
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
   CSPayloadIFPtr lookupCachedProperty(const OpID &propertyID) const;
-- 
2.43.0


From 7b710af0ff8bf22df0aee9c39494aa0e267ed84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 24/38] fix: clients ended up with an old property when it was
 changed by two threads, or while they registered

---
 .../client-server/ServiceProvider.cpp          | 18 ++++++++++++++++--
 .../messaging/client-server/ServiceProvider.h  |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index e1bd26a..a6befdd 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -95,7 +95,9 @@ ActionCallStatus ServiceProvider::setStatus(const OpID &propertyID,
   }
 
   if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, newProperty);
+    auto status = broadcast(propertyID, OpCode::StatusRegister, newProperty);
+    catchUpWithStatus(propertyID, newProperty);
+    return status;
   } else {
     MAF_LOGGER_INFO("Don't set status of property `", propertyID,
                     "` due to unchanged!");
@@ -107,7 +109,9 @@ ActionCallStatus ServiceProvider::removeProperty(const OpID &propertyID,
                                                  bool notify) {
   propertyMap_.atomic()->erase(propertyID);
   if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, {});
+    auto status = broadcast(propertyID, OpCode::StatusRegister, {});
+    catchUpWithStatus(propertyID, {});
+    return status;
   } else {
     return ActionCallStatus::Success;
   }
@@ -371,6 +375,16 @@ void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
   if (auto currentStatus = getStatus(registerMsg->operationID())) {
     registerMsg->setPayload(currentStatus);
     sendBackMessageToClient(registerMsg);
+    catchUpWithStatus(registerMsg->operationID(), std::move(currentStatus));
+  }
+}
+
+void ServiceProvider::catchUpWithStatus(const OpID &propertyID,
+                                        CSPayloadIFPtr sentStatus) {
+  for (auto currentStatus = getStatus(propertyID); currentStatus != sentStatus;
+       currentStatus = getStatus(propertyID)) {
+    broadcastToClients(propertyID, OpCode::StatusRegister, currentStatus);
+    sentStatus = std::move(currentStatus);
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..d6160b5 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -87,6 +87,9 @@ class ServiceProvider : public ServiceProviderIF,
 
   void onActionRequest(const CSMessagePtr &msg);
   void updateLatestStatus(const CSMessagePtr &registerMsg);
+  // the property might have been changed while sentStatus was being sent, and
+  // its clients have been told so before they were told sentStatus
+  void catchUpWithStatus(const OpID &propertyID, CSPayloadIFPtr sentStatus);
   void onStatusGetRequest(const CSMessagePtr &getMsg);
   RequestHandlerFunction getRequestHandlerCallback(const OpID &opID);
 
-- 
2.43.0


From cae46f6148555bf42e8a0237b0e98b0ebcbd652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 25/38] fix: deadlock of a server-side listener that uses the
 provider, and unsynchronised disconnecting of one

---
 .../client-server/ServiceProvider.cpp         | 23 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index a6befdd..3d7202a 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -131,10 +131,17 @@ ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  PropertyStatusChangedSignal *listeners = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      listeners = &it->second;  // stays where it is until the end
+    }
+  }
+  // listeners may use this provider
+  if (listeners) {
+    listeners->notify(payload);
   }
 }
 
@@ -367,8 +374,12 @@ bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
 
 signal_slots::Connection ServiceProvider::registerNotification(
     const OpID &opID, CSPayloadProcessCallback callback) {
-  LOCK(serverSideListenersMap_);
-  return (*serverSideListenersMap_)[opID].connect(move(callback));
+  PropertyStatusChangedSignal *listeners = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    listeners = &(*serverSideListenersMap_)[opID];
+  }
+  return listeners->connect(move(callback));
 }
 
 void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index d6160b5..1f0ff59 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -21,7 +21,7 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
-- 
2.43.0


From db227d877a7b6ae96dae14836c20cd2f73f8b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 26/38] fix: a request whose handler was discarded by its
 executor was never answered

---
 include/maf/messaging/client-server/BasicStub.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index 0deadb1..362935c 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -214,9 +214,12 @@ bool BasicStub<PTrait>::registerRequestHandler(
     auto requestHandler =
         [handlerFunction = std::move(handlerFunction), executor = executor_](
             const std::shared_ptr<RequestIF> &request) mutable {
-          executor->execute([request = request,
+          // answers the request when the executor never gets to the handler
+          auto handledRequest = std::shared_ptr<Request<RequestOrInput>>{
+              new Request<RequestOrInput>{request}};
+          executor->execute([request = std::move(handledRequest),
                              callback = std::move(handlerFunction)]() mutable {
-            callback(Request<RequestOrInput>{std::move(request)});
+            callback(std::move(*request));
           });
         };
 
-- 
2.43.0


From 57731888f6302ce1119f161f4d6d3cfe11993075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 27/38] fix: ThreadSafeQueue::clear hands over and destroys
 elements unlocked

---
 include/maf/threading/ThreadSafeQueue.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 16f9ac1..14d37d9 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -125,16 +125,18 @@ class ThreadSafeQueue {
   bool isClosed() const { return closed_.load(std::memory_order_acquire); }
 
   void clear(ApplyAction onClearCallback = nullptr) {
-    using namespace std;
-    lock_guard lock(queue_);
+    // Elements are handed over and destroyed unlocked, they might use the queue
+    QueueClass cleared;
+    {
+      std::lock_guard lock(queue_);
+      std::swap(cleared, *queue_);
+    }
     if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
+      while (!cleared.empty()) {
+        auto v = std::move(cleared.front());
         onClearCallback(v);
-        queue_->pop();
+        cleared.pop();
       }
-    } else {
-      *queue_ = {};
     }
   }
 
-- 
2.43.0


From 8211bb5e643214465d1a73a5d7142c0221e34fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 28/38] fix: thread pools: races of launching threads and
 shutting down, tasks started during shutdown were never asked to stop,
 uninitialised autoDelete

---
 include/maf/threading/Runnable.h           |  2 +-
 include/maf/threading/ThreadPoolImplBase.h | 30 +++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..97132b4 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,9 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    // A thread launched after shutdown would never be joined
+    if (!_poolClosed && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -51,6 +53,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -76,9 +79,10 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -89,18 +93,27 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
+  bool _poolClosed = false;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  bool _stopped = false;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  // Running tasks have been asked to stop already: one that was taken from the
+  // queue before but does not run yet is not to start any more
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_stopped) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
@@ -114,12 +127,17 @@ private:
   }
   void stopRunningTasks() {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    _stopped = true;
     for (auto &task : _runningTasks) {
       _fStop(task);
     }
   }
 
   void waitForThreadsExited() {
+    {
+      std::lock_guard<std::mutex> lock(_poolMutex);
+      _poolClosed = true;
+    }
     for (auto &th : _pool) {
       if (th.joinable()) {
         th.join();
-- 
2.43.0


From e733076252583ad9e1b14207a267dafac208840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 29/38] fix: timers lost, fired wrongly or never when stopped
 or restarted while waiting

When the wait for the shortest timer was over, that timer was fired although
the front of the heap might be another one by then: the wrong timer was removed,
lost or fired for ever.  Restarting a timer that is not running marked it as
running without adding it (it never fired), and used the front of an empty
heap.  A callback that starts its own timer again was destroyed while running.
---
 src/common/maf/messaging/Timer.cpp | 45 +++++++++++++++---------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..9589db1 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -41,12 +41,13 @@ struct TimerData {
         duration(interval),
         cyclic(cc) {}
   void updateNextDeadline() { deadline += duration; }
-  void restart() {
-    running = true;
-    deadline = Clock::now() + duration;
-  }
+  void restart() { deadline = Clock::now() + duration; }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  void onExpired() {
+    // The timer might be started again with another callback by this one
+    auto running = callback;
+    running();
+  }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
@@ -177,25 +178,27 @@ void TimerMgr::checkAllTimers() {
   }
   auto comp = this_processor::instance();
   while (auto timer = getShortestTimer()) {
-    if (!timer->expired()) {
-      state_ = State::Waiting;
-      comp->runOnceUntil(timer->deadline);
-      state_ = State::HaveTimer;
-    }
-
     if (comp->stopped()) {
       break;
     }
 
+    // stopped on another thread
+    if (!timer->running) {
+      remove(timer);
+      continue;
+    }
+
     if (!timer->expired()) {
+      state_ = State::Waiting;
+      comp->runOnceUntil(timer->deadline);
+      state_ = State::HaveTimer;
+      // timers might be stopped or started while waiting, so this one is not
+      // necessarily the shortest any more
       continue;
     }
 
     state_ = State::HaveTimer;
-    // shortest timer might be stopped while waiting
-    if (timer->running) {
-      onShortestTimerExpired(timer);
-    }
+    onShortestTimerExpired(timer);
   }
 }
 
@@ -237,14 +240,12 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
-  r->restart();
-  if (r == records_.front()) {
-    pop_heap(begin(), end(), timerGreater);
-    push_heap(begin(), end(), timerGreater);
-  } else {
-    refresh();
+  // has never been started
+  if (!r->callback) {
+    return;
   }
-  onTimerModified();
+  r->restart();
+  start(r);
 }
 
 void TimerMgr::add(TimerDataPtr newRecord) {
-- 
2.43.0


From 7057e7fb187e2f22e59c78fce132822e8de5e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 30/38] fix: SyncTimer::restart had no effect, start did not
 stop the former start

Every start has its own number, so that a former one returns even when the
timer is running again at once; restart moves the deadline.
---
 src/common/maf/messaging/SyncTimer.cpp | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..739d5fa 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -14,12 +14,18 @@ namespace messaging {
 struct SyncTimerDataPrv {
   std::condition_variable_any timeoutCondition;
   std::recursive_mutex mutex;
-  bool running = false;
+  std::atomic_bool running = false;
   bool cyclic = false;
+  // identifies the latest start, changed by stopping too
+  unsigned long current = 0;
+  std::chrono::milliseconds interval{};
+  std::chrono::steady_clock::time_point deadline{};
 };
 
 SyncTimer::SyncTimer(bool cyclic)
-    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic}} {}
+    : d_{new SyncTimerDataPrv} {
+  d_->cyclic = cyclic;
+}
 
 SyncTimer::~SyncTimer() {
   stop();
@@ -36,27 +42,36 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
   if (!callback) {
     MAF_LOGGER_ERROR("[TimerImpl]: Please specify not null callback");
   } else {
+    std::unique_lock lock(d_->mutex);
     if (running()) {
       MAF_LOGGER_INFO("TimerImpl is still running, then stop!");
       stop();
     }
 
-    std::unique_lock lock(d_->mutex);
+    const auto id = ++d_->current;
     d_->running = true;
+    d_->interval = milliseconds;
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
+      d_->deadline = std::chrono::steady_clock::now() + d_->interval;
+      while (d_->current == id &&
+             std::chrono::steady_clock::now() < d_->deadline) {
+        // the deadline is moved by restarting
+        auto deadline = d_->deadline;
+        d_->timeoutCondition.wait_until(lock, deadline);
+      }
+
+      if (d_->current == id) {
         if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
+          executor->execute(callback);
         } else {
           callback();
         }
       }
 
-      if (!d_->running)  // restarted
+      if (d_->current != id)  // stopped or started again
       {
-        break;
+        return;
       }
 
     } while (d_->cyclic);
@@ -65,13 +80,20 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
   }
 }
 
-void SyncTimer::restart() { d_->timeoutCondition.notify_one(); }
+void SyncTimer::restart() {
+  std::lock_guard lock(d_->mutex);
+  if (d_->running) {
+    d_->deadline = std::chrono::steady_clock::now() + d_->interval;
+    d_->timeoutCondition.notify_all();
+  }
+}
 
 void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
   if (d_->running) {
     d_->running = false;
-    d_->timeoutCondition.notify_one();
+    ++d_->current;
+    d_->timeoutCondition.notify_all();
   }
 }
 
-- 
2.43.0


From 3d6d70e709ac92c031fecc18506225dd4322bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 31/38] fix: truncated data was read as containers, pairs,
 tuples and null pointers

---
 include/maf/utils/serialization/Serializer.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..f1e3f33 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -212,7 +212,9 @@ struct Serializer {
       uint8_t isNotNull = 0;
 
       is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
+      if (is.fail()) {
+        success = false;
+      } else if (isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
         if (!success) {
@@ -271,11 +273,11 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
+      if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -312,11 +314,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -339,9 +338,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From f3ed51e0a075bb50410195e23c4b1a88e0f88e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 32/38] fix: order of addresses and registration ids was none
 (not transitive, keys shadowed each other)

---
 include/maf/messaging/client-server/RegID.h        | 4 +++-
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..d6fb380 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -3,6 +3,8 @@
 #include <maf/messaging/client-server/CSTypes.h>
 #include <maf/utils/IDManager.h>
 
+#include <tuple>
+
 namespace maf {
 namespace messaging {
 
@@ -56,7 +58,7 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return std::tie(r1.requestID, r1.opID) < std::tie(r2.requestID, r2.opID);
 }
 
 }  // namespace messaging
diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..35b26ac 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return std::tie(name_, port_) < std::tie(other.name_, other.port_);
 }
 
 bool Address::valid() const {
-- 
2.43.0


From e4180b7dd5aadacfa9f954c2363bac747a812a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 33/38] fix: sending reported success after a failed write, and
 a gone receiver killed the sender with SIGPIPE

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 42 +++++++++++--------
 .../client-server/ipc/SocketShared.h          |  2 +-
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..82fe018 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -21,6 +21,22 @@ static bool connectable(sockaddr_un *sockaddr) {
   }
   return fd != INVALID_FD;
 }
+
+// Returns number of written bytes, it is less than `size` only on error. The
+// process must not be killed by SIGPIPE if the receiver has gone away
+static SizeType writeAll(SockFD fd, const char *data, SizeType size) {
+  SizeType totalWritten = 0;
+  while (totalWritten < size) {
+    auto written = ns_global::send(fd, data + totalWritten,
+                                   size - totalWritten, MSG_NOSIGNAL);
+    if (written >= 0) {
+      totalWritten += static_cast<SizeType>(written);
+    } else if (errno != EINTR) {
+      break;
+    }
+  }
+  return totalWritten;
+}
 }  // namespace
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
@@ -49,24 +65,16 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
     // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
-        written == sizeof(SizeType)) {
+    if (writeAll(fd, reinterpret_cast<char *>(&payloadSize),
+                 sizeof(SizeType)) == sizeof(SizeType)) {
       // Second write is to send payload content
-      do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
-            written != -1) {
-          totalWritten += written;
-        } else {
-          MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
-                           totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
-          break;
-        }
-      } while (totalWritten < payloadSize);
-
-      acs = ActionCallStatus::Success;
+      totalWritten = writeAll(fd, payload.data(), payloadSize);
+      if (totalWritten == payloadSize) {
+        acs = ActionCallStatus::Success;
+      } else {
+        MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
+                         totalWritten);
+      }
     } else {
       MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
                        "] to receiver");
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..207ba2e 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -25,7 +25,7 @@ class AutoCloseFD {
 
 public:
   AutoCloseFD(FileDescriptor fd_ = INVALID_VALUE) : fd{fd_} {}
-  AutoCloseFD(AutoCloseFD &&rhs) { takefrom(std::move(rhs)); }
+  AutoCloseFD(AutoCloseFD &&rhs) : fd{INVALID_VALUE} { takefrom(std::move(rhs)); }
   AutoCloseFD &operator=(AutoCloseFD &&rhs) {
     takefrom(std::move(rhs));
     return *this;
-- 
2.43.0


From 292f042d764fab0460c9d499c4e238463633abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:21 +0000
Subject: [PATCH 34/38] fix: socket receiver overflowed its buffer, hung or
 lost buffers on split, truncated and concurrent input

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 150 ++++++++++--------
 1 file changed, 84 insertions(+), 66 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..0ec4a0c 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -3,9 +3,13 @@
 #include <arpa/inet.h>
 #include <maf/logging/Logger.h>
 #include <netinet/in.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <vector>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -13,6 +17,51 @@ namespace messaging {
 namespace ipc {
 namespace local {
 
+namespace {
+
+// A peer sends one buffer over each connection: its length, then its content
+struct Connection {
+  enum class Status : char { Incomplete, Complete, Broken };
+
+  // Reads what is there without waiting for the rest
+  Status readAvailableBytes() {
+    static constexpr size_t CHUNK = 64 * 1024;
+    while (headerRead < sizeof(SizeType) || payloadRead < length) {
+      auto inHeader = headerRead < sizeof(SizeType);
+      if (!inHeader && payloadRead == payload.size()) {
+        // the announced length isn't trusted before the bytes are there
+        payload.resize(payloadRead + std::min(CHUNK, static_cast<size_t>(length) - payloadRead));
+      }
+      auto bytesRead =
+          inHeader ? recv(fd, reinterpret_cast<char *>(&length) + headerRead,
+                          sizeof(SizeType) - headerRead, MSG_DONTWAIT)
+                   : recv(fd, payload.data() + payloadRead,
+                          payload.size() - payloadRead, MSG_DONTWAIT);
+      if (bytesRead > 0) {
+        (inHeader ? headerRead : payloadRead) += static_cast<size_t>(bytesRead);
+      } else if (bytesRead < 0 && errno == EINTR) {
+        continue;
+      } else if (bytesRead < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+        return Status::Incomplete;
+      } else {
+        if (headerRead > 0) {
+          MAF_LOGGER_ERROR("Peer closed before its message was complete");
+        }
+        return Status::Broken;
+      }
+    }
+    return Status::Complete;
+  }
+
+  AutoCloseFD<SockFD> fd;
+  SizeType length = 0;
+  size_t headerRead = 0;
+  size_t payloadRead = 0;
+  srz::Buffer payload;
+};
+
+}  // namespace
+
 LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
 
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
@@ -91,36 +140,22 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
 }
 
 bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
-  auto maxSd = INVALID_FD;
-  socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
-  fd_set readfds;
+  std::vector<Connection> connections;  // in order of acceptance
+  std::vector<pollfd> fds;
   do {
-    // clear the socket set
-    FD_ZERO(&readfds);
-
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
-
-    // add child sockets to set
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      // socket descriptor
-      auto sd = fdClientSocks[i];
-
-      // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
-
-      // highest file descriptor number, need it for the select function
-      if (sd > maxSd) maxSd = sd;
+    // do not accept more than MAXCLIENTS connections at a time, the others stay
+    // in the queue of the listening socket (poll ignores negative descriptors)
+    auto acceptable = connections.size() < MAXCLIENTS;
+    fds.clear();
+    fds.push_back(pollfd{acceptable ? fdMySock_ : INVALID_FD, POLLIN, 0});
+    for (auto &connection : connections) {
+      fds.push_back(pollfd{connection.fd, POLLIN, 0});
     }
 
-    timeval timeout = {1, 0};
-
     changeCurrentStateAndInterruptIfStop(State::Running,
                                          State::WaitingConnection);
 
-    auto totalSD = select(maxSd + 1, &readfds, nullptr, nullptr, &timeout);
+    auto totalSD = poll(fds.data(), fds.size(), 1000);
 
     changeCurrentStateAndInterruptIfStop(State::WaitingConnection,
                                          State::Running);
@@ -129,57 +164,40 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
       continue;
     }
 
-    // If something happened on the master socket ,
-    // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
-        MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
+    // IO operations on connected sockets
+    size_t i = 1;
+    for (auto it = connections.begin(); it != connections.end(); ++i) {
+      if (fds[i].revents == 0) {
+        ++it;
+        continue;
       }
-
-      // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
+      switch (it->readAvailableBytes()) {
+        case Connection::Status::Incomplete:
+          ++it;
+          break;
+        case Connection::Status::Complete:
+          bytesComeCallback_(std::move(it->payload));
+          it = connections.erase(it);
+          break;
+        case Connection::Status::Broken:
+          it = connections.erase(it);
           break;
-        }
       }
     }
 
-    // else its some IO operation on some other socket
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
-        SizeType messageLength = 0;
-        ssize_t totalRead = 0;
-        if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
-                                  sizeof(SizeType));
-            bytesRead == sizeof(SizeType)) {
-          auto payload = srz::Buffer{};
-          payload.resize(messageLength);
-          while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
-              totalRead += bytesRead;
-            } else {
-              MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-                               totalRead, " total expected = ", messageLength);
-              break;
-            }
-          }
-          if (totalRead == messageLength) {
-            bytesComeCallback_(std::move(payload));
-          }
-        }
-        close(sd);
-        fdClientSocks[i] = 0;
+    // If something happened on the master socket ,
+    // then its an incoming connection
+    if (fds[0].revents != 0) {
+      auto acceptedSD = accept(fdMySock_, nullptr, nullptr);
+      if (acceptedSD < 0) {
+        MAF_SOCKET_ERROR("Failed on accepting new socket connection");
+      } else {
+        connections.emplace_back();
+        connections.back().fd = AutoCloseFD<SockFD>{acceptedSD};
       }
     }
   } while (true);
 
-  setState(State::Stopped);
   return true;
 }
 
-- 
2.43.0


From 1cc8294096472611cd318cbe091f0646382ebe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 35/38] fix: a stopped socket receiver kept its socket, could
 not be started again and missed early stops

---
 .../client-server/ipc/LocalIPCServer.cpp      |  5 +-
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 49 +++++++++++++------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  4 +-
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..8a22bb0 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,8 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  // also if the listening thread has not come to start it yet
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 0ec4a0c..09ce547 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -66,11 +66,16 @@ LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
 
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   bool startable = false;
+  if (running()) {
+    MAF_LOGGER_ERROR("Receiver is running at address ", myaddr_.dump());
+    return false;
+  }
+  stop();
+  std::lock_guard<std::mutex> lock(listeningMutex_);
   myaddr_ = addr;
   auto sockpath = myaddr_.get_name();
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
@@ -90,35 +95,46 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
         MAF_LOGGER_ERROR("Coud not bind socket to address ", myaddr_.dump());
       }
     }
+    if (!startable) {
+      fdMySock_.reset();
+    }
   }
 
   return startable;
 }
 
 bool LocalIPCBufferReceiverImpl::start() {
+  auto expectedState = State::Initialized;
+  if (!state_.compare_exchange_strong(expectedState, State::Running)) {
+    return false;
+  }
+  auto success = true;
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
-      waitAndProcessConnections();
-    } else {
-      return false;
-    }
+    waitAndProcessConnections();
   } catch (StoppedInterruption) {
   } catch (...) {
-    return false;
+    success = false;
   }
-  return true;
+  // nobody is listening any more, peers must not believe so
+  fdMySock_.reset();
+  setState(State::Stopped);
+  return success;
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
-    // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
+  bool waiting = false;
+  {
+    std::lock_guard<std::mutex> lock(listeningMutex_);
+    auto lastState = state_.exchange(State::Stopped);
+    waiting = lastState == State::WaitingConnection;
+    if (lastState == State::Initialized) {
+      fdMySock_.reset();
     }
   }
+  if (waiting) {
+    // trying connect to socket to wake the running thread
+    connectToSocket(myaddr_.get_name());
+  }
 }
 
 void LocalIPCBufferReceiverImpl::deinit() {}
@@ -147,7 +163,8 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
     // in the queue of the listening socket (poll ignores negative descriptors)
     auto acceptable = connections.size() < MAXCLIENTS;
     fds.clear();
-    fds.push_back(pollfd{acceptable ? fdMySock_ : INVALID_FD, POLLIN, 0});
+    auto listeningSD = acceptable ? static_cast<SockFD>(fdMySock_) : INVALID_FD;
+    fds.push_back(pollfd{listeningSD, POLLIN, 0});
     for (auto &connection : connections) {
       fds.push_back(pollfd{connection.fd, POLLIN, 0});
     }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..c2ae44f 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <future>
+#include <mutex>
 
 #include "SocketShared.h"
 
@@ -46,7 +47,8 @@ class LocalIPCBufferReceiverImpl {
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  AutoCloseFD<SockFD> fdMySock_;
+  std::mutex listeningMutex_;  // for init and stop
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 57843b5b9d116721275184e84a54b31080e07c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 36/38] fix: an answer or abort of one client's request took
 the request of another one with the same number

---
 src/common/maf/messaging/client-server/Request.cpp         | 5 +++++
 src/common/maf/messaging/client-server/Request.h           | 1 +
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index db52141..695c2a5 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -97,6 +97,11 @@ RequestID Request::getRequestID() const {
   return _csMsg->requestID();
 }
 
+const Address &Request::getSourceAddress() const {
+  std::lock_guard lock(_mutex);
+  return _csMsg->sourceAddress();
+}
+
 ActionCallStatus Request::sendMsgBackToClient() {
   if (auto stub = _svStub.lock()) {
     return stub->respondToRequest(_csMsg);
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..94921ce 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -30,6 +30,7 @@ class Request : public RequestIF {
   OpCode getOperationCode() const override;
   const OpID &getOperationID() const override;
   RequestID getRequestID() const override;
+  const Address &getSourceAddress() const;
   bool valid() const override;
   ActionCallStatus respond(const CSPayloadIFPtr &answer) override;
   ActionCallStatus update(const CSPayloadIFPtr &answer) override;
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 3d7202a..7c43a40 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -284,7 +284,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // clients count their requests on their own
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->getSourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
-- 
2.43.0


From 7c3c20dda337596b2928f11888bcbc3f8fcd03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 37/38] fix: a client registering while its service was stopped
 believed it available

---
 src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 8a22bb0..b9a7535 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -98,7 +98,9 @@ bool LocalIPCServer::onIncomingMessage(const CSMessagePtr &csMsg) {
       MAF_LOGGER_INFO("[][][]Client registers for service status change: ",
                       csMsg->sourceAddress().dump());
 
-      registedClAddrs_.atomic()->insert(csMsg->sourceAddress());
+      // changes of availability are to be told to it after this one
+      std::lock_guard addressesLock(registedClAddrs_);
+      registedClAddrs_->insert(csMsg->sourceAddress());
 
       std::lock_guard lock(providers_);
       for (auto &[sid, provider] : *providers_) {
-- 
2.43.0


From b2854264954ac10c5c4b3d856f4941a157079eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 38/38] fix: a client believed the last words of a server that
 had gone

---
 .../maf/messaging/client-server/ipc/LocalIPCClient.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..63e3a34 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -145,6 +145,12 @@ void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
     std::shared_ptr<LocalIPCMessage> csMsg =
         std::make_shared<LocalIPCMessage>();
     if (csMsg->fromBytes(std::move(buff))) {
+      if (csMsg->operationCode() == OpCode::ServiceStatusUpdate &&
+          currentServerStatus_ != Availability::Available) {
+        // from a server that has gone, nobody would ever take it back
+        MAF_LOGGER_WARN("Outdated service status update ignored");
+        return;
+      }
       onIncomingMessage(csMsg);
     } else {
       MAF_LOGGER_ERROR("incoming message is not wellformed");
-- 
2.43.0

