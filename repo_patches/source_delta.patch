From b705419bd12e1edf66f64a1c70925b210315949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 01/63] fix: LockFreeStack reads a node's next index racily

A pop loaded the head relaxed and then read index_next of the head node as a
plain variable while another thread that had popped that node could be
rewriting it: a data race, and on weakly ordered machines a stale next index
could be installed as the new head. Load the head with acquire and make
index_next atomic.
---
 .../core/include/klepsydra/core/lock_free_stack.h      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..1b22aae 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -18,6 +18,7 @@
 #define LOCK_FREE_STACK_H
 
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <memory>
 #include <vector>
@@ -33,7 +34,7 @@ class LockFreeStack
 
     struct node_t final
     {
-        uint16_t index_next;
+        std::atomic<uint16_t> index_next;
     };
 
     struct head_t final
@@ -109,12 +110,13 @@ public:
 private:
     node_t *_pop(std::atomic<head_t> &h)
     {
-        head_t next, orig = h.load(std::memory_order_relaxed);
+        head_t next, orig = h.load(std::memory_order_acquire);
         do {
             if (orig.node_index == UNDEF_INDEX)
                 return nullptr;
             next.aba = orig.aba + 1;
-            next.node_index = node_buffer[orig.node_index].index_next;
+            next.node_index = node_buffer[orig.node_index].index_next.load(
+                std::memory_order_relaxed);
         } while (!h.compare_exchange_weak(orig,
                                           next,
                                           std::memory_order_acq_rel,
@@ -126,7 +128,7 @@ private:
     {
         head_t next, orig = h.load(std::memory_order_relaxed);
         do {
-            node->index_next = orig.node_index;
+            node->index_next.store(orig.node_index, std::memory_order_relaxed);
             next.aba = orig.aba + 1;
             next.node_index = _getIndex(node);
         } while (!h.compare_exchange_weak(orig,
-- 
2.43.0


From fe2420f5e8dca7e6b068fab2c95d6816593fe8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 02/63] fix: multi producer sequencer publishes slots through
 plain ints

A consumer could see a slot marked as available without the event written
into it, since the availability flags were plain ints: a data race.
---
 .../disruptor4cpp/multi_producer_sequencer.h          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..cd68c8d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,8 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_)
+            flag.store(~0, std::memory_order_relaxed);
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +210,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +248,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +262,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 6200b98c5cbdb3aeb97f0cb397912d621e288461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 03/63] fix: multi producer capacity check truncates the cursor
 to int

From sequence 2^31 on, try_next and has_available_capacity compared a
truncated cursor and let producers overwrite slots not yet consumed.
---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index cd68c8d..8cee724 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -231,7 +231,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From d11b0f91a688155a5f0072e574999d4e50ad2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 04/63] fix: lite blocking wait strategy loses wake-ups

The store of signal_needed_ may be reordered after the following load of
the cursor, so a waiter could go to sleep while the publisher saw no signal
to be needed. A read-modify-write orders the two sides.
---
 .../disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..186d8d5 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,7 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                signal_needed_.exchange(true, std::memory_order_acq_rel);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
-- 
2.43.0


From bd7f78465b4bab38898b7235f7c6588c718eb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 05/63] fix: halt of an event processor can be lost

A halt arriving between the start of run() and its clear_alert() was
erased by the latter and the run never ended; the no-op processor did not
alert its barrier at all.
---
 .../disruptor4cpp/batch_event_processor.h                 | 2 +-
 .../disruptor4cpp/no_op_event_processor.h                 | 8 ++++++--
 .../high_performance/disruptor4cpp/sequence_barrier.h     | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..656ae9d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -112,7 +112,7 @@ public:
         typename TRingBuffer::event_type *event = nullptr;
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..5dd6123 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,11 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
@@ -97,7 +101,7 @@ public:
         sequence_barrier_.clear_alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
index c56db6d..cab8177 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
@@ -102,7 +102,7 @@ public:
         wait_strategy_.signal_all_when_blocking();
     }
 
-    void clear_alert() { alerted_.store(false, std::memory_order_release); }
+    void clear_alert() { alerted_.exchange(false, std::memory_order_acq_rel); }
 
     void check_alert() const
     {
-- 
2.43.0


From 20bcd70b7baff4d598915f704f1c8eeeea7947fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 06/63] fix: state machine actions that change the
 registrations corrupt the running step

An action may register or remove actions, or drive its machine, from inside a
step. The step iterated the live vectors (use after free when they grow or are
cleared) and erased the one-off actions only afterwards, so one registered
meanwhile was dropped and one could run twice.
---
 .../state_machine/src/state_machine_listener.cpp      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..9eb7791 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -56,19 +56,22 @@ void StateMachineListener::updateCurrentState(const std::string &currentStateId,
 {
     if (stateChanged) {
         if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+            auto oneOffActions = std::move(_oneOffActions[currentStateId]);
+            _oneOffActions.erase(currentStateId);
+            for (auto &action : oneOffActions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
         if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+            auto actions = _actions[currentStateId];
+            for (auto &action : actions) {
                 action(currentStateId);
             }
         }
     }
     if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+        auto periodicActions = _periodicActions[currentStateId];
+        for (auto &action : periodicActions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From ad3c76f019a6ad45c48786842c090fce64c4211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 07/63] fix: removeActions leaves the entry and one-off actions
 registered

---
 .../modules/state_machine/src/state_machine_listener.cpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 9eb7791..1674f48 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -45,10 +45,14 @@ void StateMachineListener::addPeriodicAction(const std::string &stateId,
 void StateMachineListener::removeActions(const std::string &stateId)
 {
     std::string id = getCompleteName(stateId);
-    _periodicActions[id].clear();
+    _actions.erase(id);
+    _oneOffActions.erase(id);
+    _periodicActions.erase(id);
 }
 void StateMachineListener::removeActions()
 {
+    _actions.clear();
+    _oneOffActions.clear();
     _periodicActions.clear();
 }
 
-- 
2.43.0


From a56f5901bf0dcf3a6dcea328b2753000a893bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 08/63] fix: void caster mapper hides behind the identity
 mapper's include guard

---
 .../include/klepsydra/serialization/void_caster_mapper.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..4cd414e 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,8 +14,8 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
@@ -62,4 +62,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From 8537ef6436bc235d67899a110dc90d1090bdcaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 09/63] fix: void caster mapper reads past the end of a short
 message

---
 .../include/klepsydra/serialization/void_caster_mapper.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 4cd414e..a23323a 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::invalid_argument("void caster mapper: message shorter than the event");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
-- 
2.43.0


From 0da4f6b4e114e26da80a30fd1faf40ab60d30dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 10/63] fix: BaseSocket::close mistakes success for failure and
 closes twice

---
 core/modules/socket_mdlw/src/base_socket.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..e3a8589 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,18 +58,18 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
+    // The descriptor is released whatever close() answers: closing it again, now or
+    // in the destructor, could close a descriptor that someone else has been given.
+    int const id = socketId;
+    socketId = invalidSocketId;
+    if (::close(id) != 0) {
         switch (errno) {
         case EBADF:
             throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: EBADF: ", id, " ", std::strerror(errno)));
         case EIO:
             throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: EIO:  ", id, " ", std::strerror(errno)));
         case EINTR: {
             // TODO: Check for user interrupt flags.
             //       Beyond the scope of this project
@@ -78,10 +78,9 @@ void kpsr::socket_mdlw::BaseSocket::close()
         }
         default:
             throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: ???:  ", id, " ", std::strerror(errno)));
         }
     }
-    socketId = invalidSocketId;
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
-- 
2.43.0


From c9b64944b2b10e358fed5e0d32b43f748b48c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 11/63] fix: a data socket with descriptor 0 refuses to read

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From a596d6deb842677ad980c859acf9c993a7c5c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 12/63] fix: ServerSocket::accept overflows its descriptor set
 above FD_SETSIZE

---
 .../modules/socket_mdlw/src/server_socket.cpp | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 31bcae1..513faf9 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -12,10 +12,14 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
+#include <limits>
+
 #include <arpa/inet.h>
 #include <sys/un.h>
 
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
 #include <klepsydra/socket_core/server_socket.h>
@@ -79,19 +83,16 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
                               ": accept called on a bad socket object (this object was moved)"));
     }
 
-    struct timeval tv;
-    fd_set readfds;
-
-    tv.tv_sec = timeout;
-    tv.tv_usec = 0;
+    struct pollfd waitFor
+    {};
+    waitFor.fd = getSocketId();
+    waitFor.events = POLLIN;
 
-    FD_ZERO(&readfds);
-    FD_SET(getSocketId(), &readfds);
+    int const maxTimeout = std::numeric_limits<int>::max() / 1000;
+    int const milliseconds = std::max(0, std::min(timeout, maxTimeout)) * 1000;
 
     // Wait until the socket is ready to accept, or a timeout occurs
-    ::select(getSocketId() + 1, &readfds, NULL, NULL, &tv);
-
-    if (!FD_ISSET(getSocketId(), &readfds)) {
+    if (::poll(&waitFor, 1, milliseconds) == 0) {
         throw std::runtime_error(
             buildErrorMessage("ServerSocket:", __func__, ": accept: Timed out"));
     }
-- 
2.43.0


From 86dfb5cf3a20882e9ff8b03ff2bc0d2404b7ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 13/63] fix: a socket path too long for the address is cut
 short silently

---
 core/modules/socket_mdlw/src/connect_socket.cpp | 4 ++++
 core/modules/socket_mdlw/src/server_socket.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/modules/socket_mdlw/src/connect_socket.cpp b/core/modules/socket_mdlw/src/connect_socket.cpp
index 049fab8..a1fd3af 100644
--- a/core/modules/socket_mdlw/src/connect_socket.cpp
+++ b/core/modules/socket_mdlw/src/connect_socket.cpp
@@ -44,6 +44,10 @@ kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &path)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (path.size() >= sizeof(serverAddr.sun_path)) {
+        throw std::runtime_error(
+            buildErrorMessage("ConnectSocket::", __func__, ": path too long: ", path));
+    }
     strncpy(serverAddr.sun_path, path.data(), sizeof(serverAddr.sun_path) - 1);
 
     if (::connect(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 513faf9..344f53a 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -56,6 +56,10 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(const std::string &socketPath)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (socketPath.size() >= sizeof(serverAddr.sun_path)) {
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": path too long: ", socketPath));
+    }
     strncpy(serverAddr.sun_path, socketPath.data(), sizeof(serverAddr.sun_path) - 1);
 
     // Set the server socket to non-blocking
-- 
2.43.0


From 71e3c57c22e70f74898f29c966457d432d714808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 14/63] fix: SafeQueue timed pops take from an empty queue

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..c46be4e 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +317,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From 8cd848ee5992fd7231ab294b33adf357a4420a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 15/63] fix: SafeQueue::push never returns on a queue without
 limit

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index c46be4e..11168e7 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -89,7 +89,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +106,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +123,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
-- 
2.43.0


From 871e01ea018fe4e3a57c3eb88b2410ba5f2491eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 16/63] fix: SafeQueue::set_max_num_items is unsynchronised and
 leaves blocked pushes asleep

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 11168e7..2b8570f 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -77,7 +77,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
-- 
2.43.0


From 5ca7ae8aeabd8bb8d61698f016d7478c3165015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 17/63] fix: SafeQueue copies, moves and swaps lose the bound,
 deadlock and leave waiters asleep

Copies and moves left the bound behind, opposite swaps and assignments locked
the two queues in opposite orders, the move assignment read the source without
its lock, and pushes blocked on a full queue were not woken when its content
was exchanged.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 56 ++++++++++++-------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 2b8570f..93bd60b 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue.swap(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
@@ -372,15 +379,13 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             m_queue.swap(sq.m_queue);
-
-            if (!m_queue.empty())
-                m_non_empty_condition.notify_all();
-
-            if (!sq.m_queue.empty())
-                sq.m_non_empty_condition.notify_all();
+            std::swap(m_max_num_items, sq.m_max_num_items);
+            notify_changed();
+            sq.notify_changed();
         }
     }
 
@@ -392,13 +397,13 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
-
-            if (!m_queue.empty())
-                m_non_empty_condition.notify_all();
+            m_max_num_items = sq.m_max_num_items;
+            notify_changed();
         }
 
         return *this;
@@ -411,16 +416,29 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
-
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+        if (this != &sq) {
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
+            std::queue<T, Container> temp;
+            temp.swap(sq.m_queue);
+            m_queue.swap(temp);
+            m_max_num_items = sq.m_max_num_items;
+            notify_changed();
+            sq.notify_changed();
+        }
 
         return *this;
     }
 
 private:
+    // Wakes whoever waits for the items or the room that a new content may bring.
+    void notify_changed()
+    {
+        m_non_empty_condition.notify_all();
+        m_non_full_condition.notify_all();
+    }
+
     std::queue<T, Container> m_queue;
     mutable std::mutex m_mutex;
     std::condition_variable m_non_empty_condition;
-- 
2.43.0


From 27ac6cef57bfc7101b6685c8fad4cb8d64a04050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 18/63] fix: in-memory middleware destroyed while running is
 used by its polling thread

The poller joined its thread in the base class destructor, when the derived
part that the thread calls was gone, and the providers destroyed the queue and
the listeners before the poller.
---
 .../include/klepsydra/mem_core/basic_middleware_provider.h     | 3 +++
 .../klepsydra/mem_core/concurrent_middleware_provider.h        | 3 +++
 .../include/klepsydra/mem_core/concurrent_queue_poller.h       | 3 +++
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..1026a52 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // The polling thread uses the queue and the listeners: it has to end before they go.
+    ~BasicMiddlewareProvider() { this->_poller->stop(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..fe0f986 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // The polling thread uses the queue and the listeners: it has to end before they go.
+    ~ConcurrentMiddlewareProvider() { this->_poller->stop(); }
+
     /**
      * @brief _internalQueue
      */
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..67805f9 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,9 @@ public:
         , _token(token)
     {}
 
+    // The polling thread uses this object: it has to end before any part of it goes.
+    ~ConcurrentQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..8aa4ac5 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,9 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    // The polling thread uses this object: it has to end before any part of it goes.
+    ~SafeQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
-- 
2.43.0


From e85e76c811b2fef781e4f51ff8d4e932b258ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 19/63] fix: stopping a poller whose start timed out hangs

The late thread set the running flag again after stop had cleared it, and the
join never returned.
---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..fd94c66 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -39,17 +39,20 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    // not started first: a thread that has not got to its loop yet must not enter it.
+    _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
+    _running.store(false, std::memory_order_release);
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
-    _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
 {
+    _started = false;
     _running = false;
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
@@ -59,7 +62,7 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
-    while (isRunning()) {
+    while (isStarted() && isRunning()) {
         takeEventFromQueue();
     }
 }
-- 
2.43.0


From 6e424381ffc23ee4730ed96a0d94b2ca03367c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 20/63] fix: SafeEventEmitter reads and clears its listeners
 without the lock

---
 .../core/include/klepsydra/core/safe_event_emitter.h        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..a4f1a53 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -146,7 +146,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -176,6 +176,7 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -189,6 +190,7 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
                 container->detach(subscriberListenerBasePair.second->listenerStats.get());
-- 
2.43.0


From 4e7a3d02df48738be535219199eefa2ab54e9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 21/63] fix: a once listener runs several times and makes
 emitEvent throw

It was removed after its callback had run, so that concurrent or nested
emissions ran it again, and the second removal threw.
---
 .../klepsydra/core/safe_event_emitter.h       | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index a4f1a53..5f8dcbd 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -132,10 +132,11 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
+            // Only one of the concurrent or nested emissions gets a once listener.
+            if (h->isOnce && !eraseListener(h->id)) {
+                continue;
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -244,6 +245,19 @@ private:
         }
     };
 
+    bool eraseListener(unsigned int listenerId)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+
+        for (auto i = listeners.begin(); i != listeners.end(); ++i) {
+            if (i->second->id == listenerId) {
+                listeners.erase(i);
+                return true;
+            }
+        }
+        return false;
+    }
+
     unsigned int addListener(Container *container,
                              const std::string &listenerName,
                              const std::string &subscriberName,
-- 
2.43.0


From 55a35f119085b61cf9005fc3469ef364c78e7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 22/63] fix: UnsafeMultiListenerEventEmitter mixes up the
 statistics of its listeners

removeAllListeners left them to the next listeners given the same numbers, and
getListenerStats took the number of entries for their highest number: once a
listener had gone it threw, or found none for a listener that had them.
---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..e768369 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
-- 
2.43.0


From 26fb7c388e8daaa6ce2324047ec4de23491fbec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 23/63] fix: asking for the statistics of an unknown listener
 registers its name

The name was entered with number 0: the statistics of another listener were
returned, and removing the name removed that listener.
---
 .../include/klepsydra/core/event_emitter_subscriber.h     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..168e49d 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,15 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From 77999703ddb3a94cfd2fd4c1045b01bc8c50e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 24/63] fix: CoreContainer detaches others than it is asked to

Detaching a publication detached all of them, and the rest were looked up by
name, which several publishers, listeners or functions may share: the one
detached was not the one that was about to go.
---
 core/modules/core/src/core_container.cpp | 30 +++++++-----------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..169a33e 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -98,21 +98,13 @@ void kpsr::CoreContainer::detach(Service *service)
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
     {
-        auto itr = std::find_if(_managedServices.begin(),
-                                _managedServices.end(),
-                                [service](Service *item) {
-                                    return item->serviceStats.name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
             _managedServices.erase(itr);
         }
     }
     {
-        auto itr = std::find_if(_serviceStats.begin(),
-                                _serviceStats.end(),
-                                [service](ServiceStats *item) {
-                                    return item->name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), &service->serviceStats);
         if (itr != _serviceStats.end()) {
             _serviceStats.erase(itr);
         }
@@ -141,11 +133,7 @@ void kpsr::CoreContainer::detach(FunctionStats *functionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_functionStatsMutex);
-    auto itr = std::find_if(_functionStats.begin(),
-                            _functionStats.end(),
-                            [functionStats](FunctionStats *item) {
-                                return item->name == functionStats->name;
-                            });
+    auto itr = std::find(_functionStats.begin(), _functionStats.end(), functionStats);
     if (itr != _functionStats.end()) {
         _functionStats.erase(itr);
     }
@@ -205,11 +193,7 @@ void kpsr::CoreContainer::detach(SubscriptionStats *subscriptionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
-    auto itr = std::find_if(_subscriptionStats.begin(),
-                            _subscriptionStats.end(),
-                            [subscriptionStats](SubscriptionStats *item) {
-                                return item->name == subscriptionStats->name;
-                            });
+    auto itr = std::find(_subscriptionStats.begin(), _subscriptionStats.end(), subscriptionStats);
     if (itr != _subscriptionStats.end()) {
         _subscriptionStats.erase(itr);
     }
@@ -220,7 +204,11 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find(_publicationStats.begin(), _publicationStats.end(), publicationStats);
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From fd0c140b5f8a6ddadebd12473808a7c99ee25874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 25/63] fix: CoreContainer starts, stops and lists service
 statistics without their lock

---
 core/modules/core/src/core_container.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index 169a33e..e0c4d33 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -35,6 +35,16 @@ kpsr::CoreContainer::~CoreContainer()
 
 void kpsr::CoreContainer::start()
 {
+    std::lock(_serviceMutex,
+              _serviceStatsMutex,
+              _functionStatsMutex,
+              _publishStatsMutex,
+              _subscriptionStatsMutex);
+    std::lock_guard<std::mutex> serviceLock(_serviceMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> serviceStatsLock(_serviceStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> functionStatsLock(_functionStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> publishStatsLock(_publishStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> subscriptionStatsLock(_subscriptionStatsMutex, std::adopt_lock);
     _running = true;
 
     for (auto stats : _serviceStats) {
@@ -56,6 +66,16 @@ void kpsr::CoreContainer::start()
 
 void kpsr::CoreContainer::stop()
 {
+    std::lock(_serviceMutex,
+              _serviceStatsMutex,
+              _functionStatsMutex,
+              _publishStatsMutex,
+              _subscriptionStatsMutex);
+    std::lock_guard<std::mutex> serviceLock(_serviceMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> serviceStatsLock(_serviceStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> functionStatsLock(_functionStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> publishStatsLock(_publishStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> subscriptionStatsLock(_subscriptionStatsMutex, std::adopt_lock);
     _running = false;
 
     for (auto stats : _serviceStats) {
@@ -81,6 +101,7 @@ void kpsr::CoreContainer::attach(Service *service)
         return;
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
+    std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
     _managedServices.push_back(service);
     _serviceStats.push_back(&service->serviceStats);
     if (_running) {
@@ -97,6 +118,7 @@ void kpsr::CoreContainer::detach(Service *service)
         return;
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
+    std::lock_guard<std::mutex> statsLock(_serviceStatsMutex);
     {
         auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
-- 
2.43.0


From 5e262ffa80451bb5201f26fd86d4879d3052dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 26/63] fix: SmartObjectPool counts its failures in a plain
 integer

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..3f2ac59 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -17,6 +17,7 @@
 #ifndef SMART_OBJECT_POOL_H
 #define SMART_OBJECT_POOL_H
 
+#include <atomic>
 #include <functional>
 #include <klepsydra/core/lock_free_stack.h>
 #include <memory>
@@ -139,7 +140,7 @@ public:
     /*!
      * @brief objectPoolFails
      */
-    long objectPoolFails = 0;
+    std::atomic<long> objectPoolFails{0};
 
 private:
     std::function<void(T &)> _finalizerFunction;
-- 
2.43.0


From d8b80fbb859574605eadc5d524dfe596ada03022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 27/63] fix: an object returned while its pool is destroyed is
 pushed to freed memory

---
 .../klepsydra/core/smart_object_pool.h        | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index 3f2ac59..e213a7b 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -43,27 +43,27 @@ template<class T, class D = std::default_delete<T>>
 class SmartObjectPool
 {
 private:
+    // Shared with the objects on their way back, which may be returned while the pool is destroyed.
+    using Stack = LockFreeStack<std::unique_ptr<T, D>>;
+
     struct ReturnToPool_Deleter
     {
-        explicit ReturnToPool_Deleter(std::weak_ptr<SmartObjectPool<T, D> *> pool)
+        explicit ReturnToPool_Deleter(std::weak_ptr<Stack> pool)
             : pool_(pool)
         {}
 
         void operator()(T *ptr)
         {
             if (auto pool_ptr = pool_.lock()) {
-                spdlog::trace("{}. {}.", __PRETTY_FUNCTION__, (*pool_ptr)->_name);
-                (*pool_ptr)->add(std::unique_ptr<T, D>{ptr});
+                pool_ptr->push(std::unique_ptr<T, D>{ptr});
             } else
                 D{}(ptr);
         }
 
     private:
-        std::weak_ptr<SmartObjectPool<T, D> *> pool_;
+        std::weak_ptr<Stack> pool_;
     };
 
-    void add(std::unique_ptr<T, D> t) { pool_->push(std::move(t)); }
-
 public:
     using ptr_type = std::unique_ptr<T, ReturnToPool_Deleter>;
 
@@ -77,7 +77,6 @@ public:
                     std::function<void(T &)> initializerFunction = nullptr,
                     std::function<void(T &)> finalizerFunction = nullptr)
         : _finalizerFunction(finalizerFunction)
-        , this_ptr_(std::make_shared<SmartObjectPool<T, D> *>(this))
         , _name(name)
     {
         std::function<void(std::unique_ptr<T, D> &)> poolInitializer =
@@ -88,7 +87,7 @@ public:
                 }
             };
 
-        pool_ = new LockFreeStack<std::unique_ptr<T, D>>(size, poolInitializer);
+        pool_ = std::make_shared<Stack>(size, poolInitializer);
 
         spdlog::trace("{}. Init function for smartpool {} and size {}",
                       __PRETTY_FUNCTION__,
@@ -105,7 +104,6 @@ public:
             }
             t_ptr.reset();
         }
-        delete pool_;
     }
 
     /*!
@@ -121,8 +119,7 @@ public:
             throw std::out_of_range("Cannot acquire object from an empty pool.");
         }
 
-        ptr_type tmp(element.release(),
-                     ReturnToPool_Deleter{std::weak_ptr<SmartObjectPool<T, D> *>{this_ptr_}});
+        ptr_type tmp(element.release(), ReturnToPool_Deleter{std::weak_ptr<Stack>{pool_}});
         return tmp;
     }
 
@@ -144,8 +141,7 @@ public:
 
 private:
     std::function<void(T &)> _finalizerFunction;
-    std::shared_ptr<SmartObjectPool<T, D> *> this_ptr_;
-    LockFreeStack<std::unique_ptr<T, D>> *pool_;
+    std::shared_ptr<Stack> pool_;
     const std::string _name;
 };
 } // namespace kpsr
-- 
2.43.0


From 69d23f813d145909ca7f8f2fd5492ff27aa0d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 28/63] fix: a request sent from a reply callback corrupts the
 pending requests

---
 core/modules/core/include/klepsydra/core/callback_handler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..42bbfd8 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -127,8 +127,10 @@ protected:
     {
         for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
             if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
+                // The callback may send further requests, which change the vector.
+                auto callback = std::move((*it).second);
                 _requestCallbackVector.erase(it);
+                callback(reply);
                 return;
             }
             ++it;
-- 
2.43.0


From d0bc7b79681a18370e1bdc488a228852ce50a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 29/63] fix: MultiThreadCallbackHandler deadlocks on an
 immediate reply or a request from a callback

---
 .../include/klepsydra/core/callback_handler.h | 55 +++++++++++--------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 42bbfd8..183026e 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,24 +116,17 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
     {
-        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
-            if (_correlationFunction((*it).first, reply)) {
-                // The callback may send further requests, which change the vector.
-                auto callback = std::move((*it).second);
-                _requestCallbackVector.erase(it);
-                callback(reply);
-                return;
-            }
-            ++it;
+        std::function<void(const Reply &)> callback;
+        if (takeCallback(reply, callback)) {
+            callback(reply);
+            return;
         }
         spdlog::info(
             "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
@@ -141,6 +134,25 @@ protected:
             _publisher->name);
     }
 
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        _requestCallbackVector.push_back(std::make_pair(request, callback));
+    }
+
+    virtual bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback)
+    {
+        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end(); ++it) {
+            if (_correlationFunction((*it).first, reply)) {
+                // The callback may send further requests, which change the vector.
+                callback = std::move((*it).second);
+                _requestCallbackVector.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
 private:
     Publisher<Request> *_publisher;
     Subscriber<Reply> *_subscriber;
@@ -223,23 +235,20 @@ public:
 
     virtual ~MultiThreadCallbackHandler() {}
 
-    /**
-     * @brief requestAndReply
-     * @param request Event to publish
-     * @param callback std::function to invoke when the reply is received.
-     */
-    void requestAndReply(const Request &request,
-                         const std::function<void(const Reply &)> &callback) override
+protected:
+    // The lock is not held while publishing or in a callback: the reply may come at once and
+    // the callback may send further requests.
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::requestAndReply(request, callback);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
     }
 
-protected:
-    void onReplyReceived(const Reply &reply) override
+    bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeCallback(reply, callback);
     }
 
 private:
-- 
2.43.0


From 6682a769d6ea5312c25a6ccb6daa909dc79eba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 30/63] fix: replacing a scheduled task or destroying its
 scheduler terminates the program

---
 .../mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h    | 5 +++++
 core/modules/mem_mdlw/src/basic_scheduler.cpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..eb2b12f 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -84,6 +84,11 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
+        /**
+         * @brief Stops the task if it is still scheduled
+         */
+        ~ScheduledThread();
+
         /**
          * @brief
          */
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..e000ebf 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -26,6 +26,11 @@ kpsr::mem::BasicScheduler::ScheduledThread::ScheduledThread(const std::string &n
     , _task(task)
 {}
 
+kpsr::mem::BasicScheduler::ScheduledThread::~ScheduledThread()
+{
+    stop();
+}
+
 void kpsr::mem::BasicScheduler::ScheduledThread::start()
 {
     _isRunning = true;
-- 
2.43.0


From c3da78d9b46982c698a9c856da95266239927ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 31/63] fix: a scheduled task runs although it was stopped
 before its time

---
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index e000ebf..b4b9bc9 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -47,6 +47,9 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
                         "No sleep due to long execution time. Effective sleep time is: {}",
                         effectiveSleepTime);
                 }
+                if (!_isRunning) {
+                    break;
+                }
                 before = std::chrono::duration_cast<std::chrono::microseconds>(
                              std::chrono::system_clock::now().time_since_epoch())
                              .count();
@@ -58,6 +61,8 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
         } else {
             if (_isRunning) {
                 std::this_thread::sleep_for(std::chrono::microseconds(_after));
+            }
+            if (_isRunning) {
                 _task();
             }
         }
-- 
2.43.0


From fdfc784b03c8e9316a928328ebd82d599b47ca2b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 32/63] fix: publishers scan the gating sequences while
 consumers are added or removed

---
 .../disruptor4cpp/multi_producer_sequencer.h  | 23 +++++++++++++++----
 .../disruptor4cpp/single_producer_sequencer.h | 23 +++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 8cee724..af77726 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -51,6 +51,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <thread>
 #include <vector>
@@ -95,6 +96,7 @@ public:
     {
         // TODO: It is different from the java version.
         // The java version allows to change gating sequences after high_performance is started.
+        std::lock_guard<std::mutex> lock(gating_mutex_);
         int64_t cursor_sequence = cursor_.get();
         for (auto seq : sequences_to_add) {
             seq->set(cursor_sequence);
@@ -106,6 +108,7 @@ public:
     {
         // TODO: It is different from the java version.
         // The java version allows to change gating sequences after high_performance is started.
+        std::lock_guard<std::mutex> lock(gating_mutex_);
         bool removed = false;
         for (auto iter = gating_sequences_.begin(); iter != gating_sequences_.end();) {
             if (*iter == &seq) {
@@ -117,7 +120,11 @@ public:
         return removed;
     }
 
-    int64_t get_minimum_sequence() const { return util::get_minimum_sequence(gating_sequences_); }
+    int64_t get_minimum_sequence() const
+    {
+        std::lock_guard<std::mutex> lock(gating_mutex_);
+        return util::get_minimum_sequence(gating_sequences_);
+    }
 
     std::unique_ptr<sequence_barrier_type> new_barrier()
     {
@@ -152,7 +159,7 @@ public:
             int64_t wrap_point = next - static_cast<int64_t>(BufferSize);
             int64_t cached_gating_sequence = gating_sequence_cache_.get();
             if (wrap_point > cached_gating_sequence || cached_gating_sequence > current) {
-                int64_t gating_sequence = util::get_minimum_sequence(gating_sequences_, current);
+                int64_t gating_sequence = get_minimum_sequence(current);
                 if (wrap_point > gating_sequence) {
                     std::this_thread::yield();
                     continue;
@@ -185,7 +192,7 @@ public:
 
     int64_t remaining_capacity() const
     {
-        int64_t consumed = util::get_minimum_sequence(gating_sequences_, cursor_.get());
+        int64_t consumed = get_minimum_sequence(cursor_.get());
         int64_t produced = cursor_.get();
         return static_cast<int64_t>(BufferSize) - (produced - consumed);
     }
@@ -231,12 +238,18 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
+    int64_t get_minimum_sequence(int64_t minimum) const
+    {
+        std::lock_guard<std::mutex> lock(gating_mutex_);
+        return util::get_minimum_sequence(gating_sequences_, minimum);
+    }
+
     bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
         if (wrap_point > cached_gating_sequence || cached_gating_sequence > cursor_value) {
-            int64_t min_sequence = util::get_minimum_sequence(gating_sequences_, cursor_value);
+            int64_t min_sequence = get_minimum_sequence(cursor_value);
             gating_sequence_cache_.set(min_sequence);
             if (wrap_point > min_sequence)
                 return false;
@@ -261,6 +274,8 @@ private:
     TSequence cursor_;
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
+    // consumers come and go while publishers look for the slowest of them
+    mutable std::mutex gating_mutex_;
     std::vector<TSequence *> gating_sequences_;
     std::atomic<int> available_buffer_[BufferSize];
 };
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h
index fe1a20a..c8d5005 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h
@@ -50,6 +50,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <thread>
 #include <vector>
@@ -92,6 +93,7 @@ public:
     {
         // TODO: It is different from the java version.
         // The java version allows to change gating sequences after high_performance is started.
+        std::lock_guard<std::mutex> lock(gating_mutex_);
         int64_t cursor_sequence = cursor_.get();
         for (auto seq : sequences_to_add) {
             seq->set(cursor_sequence);
@@ -103,6 +105,7 @@ public:
     {
         // TODO: It is different from the java version.
         // The java version allows to change gating sequences after high_performance is started.
+        std::lock_guard<std::mutex> lock(gating_mutex_);
         bool removed = false;
         for (auto iter = gating_sequences_.begin(); iter != gating_sequences_.end();) {
             if (*iter == &seq) {
@@ -114,7 +117,11 @@ public:
         return removed;
     }
 
-    int64_t get_minimum_sequence() const { return util::get_minimum_sequence(gating_sequences_); }
+    int64_t get_minimum_sequence() const
+    {
+        std::lock_guard<std::mutex> lock(gating_mutex_);
+        return util::get_minimum_sequence(gating_sequences_);
+    }
 
     std::unique_ptr<sequence_barrier_type> new_barrier()
     {
@@ -134,7 +141,7 @@ public:
         int64_t wrap_point = (next_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = cached_value_;
         if (wrap_point > cached_gating_sequence || cached_gating_sequence > next_value) {
-            int64_t min_sequence = util::get_minimum_sequence(gating_sequences_, next_value);
+            int64_t min_sequence = get_minimum_sequence(next_value);
             cached_value_ = min_sequence;
             if (wrap_point > min_sequence)
                 return false;
@@ -157,7 +164,7 @@ public:
         if (wrap_point > cached_gating_sequence || cached_gating_sequence > next_value) {
             int64_t min_sequence;
             while (wrap_point >
-                   (min_sequence = util::get_minimum_sequence(gating_sequences_, next_value))) {
+                   (min_sequence = get_minimum_sequence(next_value))) {
                 std::this_thread::yield();
             }
             cached_value_ = min_sequence;
@@ -182,7 +189,7 @@ public:
     int64_t remaining_capacity() const
     {
         int64_t next_value = next_value_;
-        int64_t consumed = util::get_minimum_sequence(gating_sequences_, next_value);
+        int64_t consumed = get_minimum_sequence(next_value);
         int64_t produced = next_value;
         return static_cast<int64_t>(BufferSize) - (produced - consumed);
     }
@@ -210,8 +217,16 @@ private:
     single_producer_sequencer(single_producer_sequencer &&) = delete;
     single_producer_sequencer &operator=(single_producer_sequencer &&) = delete;
 
+    int64_t get_minimum_sequence(int64_t minimum) const
+    {
+        std::lock_guard<std::mutex> lock(gating_mutex_);
+        return util::get_minimum_sequence(gating_sequences_, minimum);
+    }
+
     TSequence cursor_;
     TWaitStrategy wait_strategy_;
+    // consumers come and go while publishers look for the slowest of them
+    mutable std::mutex gating_mutex_;
     std::vector<TSequence *> gating_sequences_;
     int64_t next_value_;
     int64_t cached_value_;
-- 
2.43.0


From 6c85ab238cc5a91be8e496e9999c865af25aafc2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 33/63] fix: events accepted by an event loop are lost when it
 stops and starts, and its thread outlives it

---
 .../include/klepsydra/high_performance/event_loop.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..32d95a4 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -78,10 +78,6 @@ public:
         , _isStarted(false)
         , _eventLoopTask([this] {
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask begin");
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
             spdlog::debug(EVENT_LOOP_START_MESSAGE);
             this->batchEventProcessor->run();
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask end.");
@@ -93,6 +89,14 @@ public:
         auto barrier = _ringBuffer.new_barrier();
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
+        // Once for all starts: the loop continues where it stopped and no accepted event is lost.
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
+    }
+
+    ~EventLoop()
+    {
+        stop();
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
     /**
-- 
2.43.0


From 4603036b8dc7e5d1bab85d31304229bc45361701 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 34/63] fix: stopping an event loop that was slow to start
 hangs

---
 .../include/klepsydra/high_performance/event_loop.h         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 32d95a4..05814ce 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -132,8 +132,12 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
-        this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
+        // A thread that has not begun to run the processor yet does not notice that it is halted.
+        do {
+            this->batchEventProcessor->halt();
+        } while (_batchProcessorThreadFuture.wait_for(std::chrono::microseconds(100)) !=
+                 std::future_status::ready);
         if (this->batchProcessorThread.joinable()) {
             this->batchProcessorThread.join();
         }
-- 
2.43.0


From e1705f7bd4a0557cc485cd6ee18dd4716e59b535 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 35/63] fix: an event loop runs on while its provider destroys
 its subscribers

---
 .../high_performance/event_loop_middleware_provider.h      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..6784e10 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,12 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    ~EventLoopMiddlewareProvider()
+    {
+        // nothing may run any more when the subscribers and publishers are destroyed
+        _scheduler.reset();
+        _eventLoop.stop();
+    }
 
     template<class T>
     /**
-- 
2.43.0


From 9675890e88a6494183c5e05f495ebf62fd7d9165 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 36/63] fix: discarded messages counted from several scheduler
 threads get lost

---
 .../include/klepsydra/high_performance/event_loop_publisher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
index 22a5a45..51837f5 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
@@ -19,6 +19,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <tuple>
 
 #include <spdlog/spdlog.h>
@@ -123,6 +124,8 @@ public:
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
             spdlog::info("EventLoopPublisher::internalPublish. no more capacity.{}", _eventName);
+            // the scheduler publishes its tasks from several threads
+            std::lock_guard<std::mutex> lock(_discardedMutex);
             _discardedMessages++;
         }
     }
@@ -134,6 +137,7 @@ public:
 
 private:
     RingBuffer &_ringBuffer;
+    std::mutex _discardedMutex;
     std::string _eventName;
     int _poolSize;
     std::function<void(int64_t seq)> _prePublishingStep;
-- 
2.43.0


From e1820e06368bf79c659c898759011ff8f98c0ec7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 37/63] fix: a data multiplexer subscriber that ends leaves its
 sequence in the ring, or hangs

---
 .../data_multiplexer_subscriber.h             | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..b384991 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -79,13 +79,7 @@ public:
         , _ringBuffer(ringBuffer)
         , _eventHandler(this->name, this->_eventEmitter)
         , _started(false)
-        , _batchProcessorTask([this] {
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor.get()->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
-            this->batchEventProcessor->run();
-        })
+        , _batchProcessorTask([this] { this->batchEventProcessor->run(); })
         , _batchProcessorThread()
         , _batchProcessorThreadFuture(_batchProcessorTask.get_future())
         , _timeoutUs(timeoutUS)
@@ -93,6 +87,7 @@ public:
         auto barrier = _ringBuffer.new_barrier();
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, this->name));
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
 
         _batchProcessorThread = std::thread(std::move(_batchProcessorTask));
         _started = true;
@@ -102,6 +97,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                stop();
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -111,22 +107,30 @@ public:
 
     virtual ~DataMultiplexerSubscriber()
     {
-        // TODO Move this to stop method and/or ensure all listeners are removed.
+        // TODO ensure all listeners are removed.
+        stop();
+    }
+
+    std::unique_ptr<BatchProcessor> batchEventProcessor;
+
+private:
+    void stop()
+    {
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
-            std::this_thread::sleep_for(std::chrono::microseconds(1));
-        }
-        batchEventProcessor->halt();
+        // A thread that has not begun to run the processor yet does not notice that it is halted.
+        do {
+            batchEventProcessor->halt();
+        } while (_batchProcessorThreadFuture.wait_for(std::chrono::microseconds(100)) !=
+                 std::future_status::ready);
         if (_batchProcessorThread.joinable()) {
             _batchProcessorThread.join();
         }
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
+        _started = false;
     }
 
-    std::unique_ptr<BatchProcessor> batchEventProcessor;
-
-private:
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From 28d2275e62d87da7b143789d57696cb48bc42437 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 38/63] fix: all slots of a data multiplexer made from a model
 event share one event

---
 .../high_performance/data_multiplexer_middleware_provider.h  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index 2339a4b..665047d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -108,7 +108,10 @@ public:
         : _name(name)
         , _container(container)
         , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
-        , _ringBuffer(_modelEvent.get())
+        , _ringBuffer([this](DataMultiplexerDataWrapper<TEvent> &slot) {
+            // every slot needs an event of its own
+            *slot.eventData = *_modelEvent->eventData;
+        })
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
-- 
2.43.0


From e5f9b6c1ebcb2566947e72f6b3cb9f7d9e70c705 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 39/63] fix: a data multiplexer publication that fails uses up
 a slot of the ring

---
 .../data_multiplexer_publisher.h              | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index dfe006e..a91aecf 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -97,7 +97,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq].eventData);
+            try {
+                _eventCloner(event, _ringBuffer[seq].eventData);
+            } catch (...) {
+                // nothing is published, the slot is free again.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -116,7 +122,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            try {
+                _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            } catch (...) {
+                // nothing is published, the slot is free again.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -136,7 +148,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].eventData);
+            try {
+                process(*_ringBuffer[seq].eventData);
+            } catch (...) {
+                // nothing is published, the slot is free again.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
-- 
2.43.0


From 6f0b5bf0f14cbc64d2e5c22d4fe51382be1bf591 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 40/63] fix: a property that exists already keeps those of
 other types from being loaded

---
 core/modules/core/src/configuration_environment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..d2829f7 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -144,12 +144,12 @@ bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnv
                                         const std::string &rootNode)
 {
     bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode) &&
+                 copyResult;
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) &&
+                 copyResult;
     return copyResult;
 }
 
-- 
2.43.0


From c97e16b503afea683d17b7f400c3522e67a52cca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 41/63] fix: properties of the wrong type are lost in silence,
 with all that follow

---
 .../include/klepsydra/core/configuration_environment.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/configuration_environment.h b/core/modules/core/include/klepsydra/core/configuration_environment.h
index 2477a03..51831ab 100644
--- a/core/modules/core/include/klepsydra/core/configuration_environment.h
+++ b/core/modules/core/include/klepsydra/core/configuration_environment.h
@@ -155,21 +155,29 @@ private:
     {
         try {
             archive(cereal::make_nvp("StringProperties", _stringProperties));
+        } catch (const cereal::RapidJSONException &e) {
+            throw; // there are string properties, but they cannot be read
         } catch (const std::exception &e) {
             spdlog::debug("No string properties found");
         }
         try {
             archive(cereal::make_nvp("FloatProperties", _floatProperties));
+        } catch (const cereal::RapidJSONException &e) {
+            throw; // there are float properties, but they cannot be read
         } catch (const std::exception &e) {
             spdlog::debug("No float properties found");
         }
         try {
             archive(cereal::make_nvp("IntProperties", _intProperties));
+        } catch (const cereal::RapidJSONException &e) {
+            throw; // there are int properties, but they cannot be read
         } catch (const std::exception &e) {
             spdlog::debug("No int properties found");
         }
         try {
             archive(cereal::make_nvp("BoolProperties", _boolProperties));
+        } catch (const cereal::RapidJSONException &e) {
+            throw; // there are bool properties, but they cannot be read
         } catch (const std::exception &e) {
             spdlog::debug("No bool properties found");
         }
-- 
2.43.0


From 0ef212e76d5a85196c780b0da2a463d4c23a2b61 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 42/63] fix: dynamic properties cannot be overwritten

---
 .../core/include/klepsydra/core/configuration_properties.h   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..61af7a1 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -59,9 +59,8 @@ public:
                 spdlog::debug("Overwriting old data with new value");
             }
         }
-        auto insertionResult = _properties.insert(
-            std::make_pair(propertyName, std::make_shared<Property<T>>(propertyValue)));
-        return insertionResult.second;
+        _properties[propertyName] = std::make_shared<Property<T>>(propertyValue);
+        return true;
     }
 
     void copyFrom(const DynamicConfigurationProperties &other, const std::string &prefix = "")
-- 
2.43.0


From 8aa75eae8bd90bd0e98a8991fdff224a5d387a51 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 43/63] fix: the memory environment mixes up root nodes

---
 core/modules/mem_mdlw/src/mem_env.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/src/mem_env.cpp b/core/modules/mem_mdlw/src/mem_env.cpp
index b0d40bf..7c7458c 100644
--- a/core/modules/mem_mdlw/src/mem_env.cpp
+++ b/core/modules/mem_mdlw/src/mem_env.cpp
@@ -14,13 +14,20 @@
 
 #include <klepsydra/mem_core/mem_env.h>
 
+namespace {
+std::string fullKey(const std::string &key, const std::string &rootNode)
+{
+    return rootNode.empty() ? key : rootNode + "/" + key;
+}
+} // namespace
+
 bool kpsr::mem::MemEnv::getPropertyString(const std::string &key,
                                           std::string &value,
                                           std::string const &defaultValue,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = stringDataMap.find(key);
+    auto it = stringDataMap.find(fullKey(key, rootNode));
     if (it == stringDataMap.end()) {
         value = defaultValue;
         return false;
@@ -36,7 +43,7 @@ bool kpsr::mem::MemEnv::getPropertyInt(const std::string &key,
                                        std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = intDataMap.find(key);
+    auto it = intDataMap.find(fullKey(key, rootNode));
     if (it == intDataMap.end()) {
         value = defaultValue;
         return false;
@@ -52,7 +59,7 @@ bool kpsr::mem::MemEnv::getPropertyFloat(const std::string &key,
                                          std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = floatDataMap.find(key);
+    auto it = floatDataMap.find(fullKey(key, rootNode));
     if (it == floatDataMap.end()) {
         value = defaultValue;
         return false;
@@ -68,7 +75,7 @@ bool kpsr::mem::MemEnv::getPropertyBool(const std::string &key,
                                         std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = boolDataMap.find(key);
+    auto it = boolDataMap.find(fullKey(key, rootNode));
     if (it == boolDataMap.end()) {
         value = defaultValue;
         return false;
@@ -83,7 +90,7 @@ void kpsr::mem::MemEnv::setPropertyString(const std::string &key,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    stringDataMap[key] = value;
+    stringDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
@@ -91,7 +98,7 @@ void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
                                        const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    intDataMap[key] = value;
+    intDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
@@ -99,7 +106,7 @@ void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
                                          const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    floatDataMap[key] = value;
+    floatDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
@@ -107,7 +114,7 @@ void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
                                         const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    boolDataMap[key] = value;
+    boolDataMap[fullKey(key, rootNode)] = value;
 }
 
 bool kpsr::mem::MemEnv::loadFile(const std::string &fileName, const std::string &nodeName)
-- 
2.43.0


From ba3eb340148bd16d81841f13bc2752ce924279f2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 44/63] fix: a line of blanks with a tab is taken for a
 malformed one

---
 core/modules/core/include/klepsydra/core/config_file.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/config_file.h b/core/modules/core/include/klepsydra/core/config_file.h
index 3a4f3fd..7fec542 100644
--- a/core/modules/core/include/klepsydra/core/config_file.h
+++ b/core/modules/core/include/klepsydra/core/config_file.h
@@ -37,7 +37,7 @@ private:
 
     bool onlyWhitespace(const std::string &line) const
     {
-        return (line.find_first_not_of(' ') == line.npos);
+        return (line.find_first_not_of("\t ") == line.npos);
     }
     bool validLine(const std::string &line) const
     {
@@ -47,7 +47,7 @@ private:
             return false;
 
         for (size_t i = temp.find('=') + 1; i < temp.length(); i++)
-            if (temp[i] != ' ')
+            if (temp[i] != ' ' && temp[i] != '\t')
                 return true;
 
         return false;
-- 
2.43.0


From 0299cc19e69c64f067e1bb3ded1b7bc56d6a6288 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 45/63] fix: property texts end at their first blank, and 0x
 anywhere makes a number hexadecimal

---
 .../klepsydra/core/prop_file_convert.h        | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index d4c9a40..6fa7969 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -40,18 +40,25 @@ public:
     {
         T returnVal;
         std::istringstream iss(val);
-        std::string::size_type hexCode = val.find("0x", 0);
-        if (hexCode == std::string::npos) {
-            if (!(iss >> returnVal))
-                throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
-                                            " received!\n");
-        } else {
-            iss >> std::hex >> returnVal;
+        // a hexadecimal number begins with 0x, after its sign
+        std::string::size_type digits = val.find_first_not_of("+-");
+        if (digits != std::string::npos && val.compare(digits, 2, "0x") == 0) {
+            iss >> std::hex;
         }
+        if (!(iss >> returnVal))
+            throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
+                                        " received!\n");
 
         return returnVal;
     }
 };
+
+// a text is used as it is, with its blanks
+template<>
+inline std::string PropertyFileConvert::string_to_T<std::string>(const std::string &val)
+{
+    return val;
+}
 } // namespace kpsr
 
 #endif
-- 
2.43.0


From f65819b4855fcc9ec432448cd0f4a4a8693009d7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 46/63] fix: the property file environment claims to have every
 property

---
 core/modules/core/src/prop_file_environment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/modules/core/src/prop_file_environment.cpp b/core/modules/core/src/prop_file_environment.cpp
index 4bc752b..bc35685 100644
--- a/core/modules/core/src/prop_file_environment.cpp
+++ b/core/modules/core/src/prop_file_environment.cpp
@@ -28,7 +28,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyString(const std::string &key,
                                                       std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<std::string>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
@@ -37,7 +37,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
                                                    std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<int>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
@@ -46,7 +46,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
                                                      std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<float>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
@@ -55,7 +55,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
                                                     std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<bool>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 void kpsr::PropertyFileEnvironment::setPropertyString(const std::string &key,
-- 
2.43.0


From eca1ad1089337e1fd6fe8488b346a357dc9c6408 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 47/63] fix: a message bus bridge that is destroyed or stopped
 early crashes or hangs

---
 .../include/klepsydra/zmq_core/binary_zmq_poller.h |  4 +++-
 .../zmq_core/from_zmq_middleware_provider.h        |  3 +++
 .../include/klepsydra/zmq_core/json_zmq_poller.h   |  4 +++-
 .../klepsydra/zmq_core/void_caster_zmq_poller.h    |  4 +++-
 .../include/klepsydra/zmq_core/zmq_poller.h        | 14 ++++++++++----
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 1bf8079..716c392 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -49,12 +49,14 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~BinaryZMQPoller() { this->stop(); }
+
     /**
      * @brief poll
      */
     virtual void poll()
     {
-        while (_running) {
+        while (isStarted() && _running) {
             zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, _pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..b4243b9 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -58,6 +58,9 @@ public:
         : _zmqPoller(std::move(zmqPoller))
     {}
 
+    // The polling thread uses the registered channels.
+    ~FromZmqChannel() { stop(); }
+
     template<class T>
     /**
      * @brief registerToTopic
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 564104b..ff57de3 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -46,12 +46,14 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~JsonZMQPoller() { this->stop(); }
+
     /**
      * @brief poll
      */
     void poll()
     {
-        while (_running) {
+        while (isStarted() && _running) {
             zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, _pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index c19a2bb..bb44ef6 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -44,12 +44,14 @@ public:
         : ZMQPoller<std::vector<unsigned char>>(subscriber, pollPeriod)
     {}
 
+    ~VoidCasterZMQPoller() { this->stop(); }
+
     /**
      * @brief poll
      */
     void poll() override
     {
-        while (this->_running) {
+        while (this->isStarted() && this->_running) {
             zmq::pollitem_t items[] = {{this->_subscriber, 0, ZMQ_POLLIN, 0}};
             if (zmq::poll(items, 1, this->_pollPeriod) == -1)
                 break;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..05a7ecd 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -89,16 +89,20 @@ public:
         if (!isStarted()) {
             return;
         }
+        // not started first: a thread that has not got to its loop yet must not enter it.
+        _started.store(false, std::memory_order_release);
         _running.store(false, std::memory_order_release);
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
         }
+        _running.store(false, std::memory_order_release);
         _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
-        _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
+    // The derived class has to stop the thread before, which runs its poll method.
+    virtual ~ZMQPoller()
     {
+        _started = false;
         _running = false;
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
@@ -148,8 +152,10 @@ public:
 protected:
     void pollingLoop()
     {
-        _running.store(true, std::memory_order_relaxed);
-        this->poll();
+        _running.store(true, std::memory_order_release);
+        if (isStarted()) {
+            this->poll();
+        }
     }
 
     /**
-- 
2.43.0


From c76a75c9e382d8e2359fc41ea1433472d825e62e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 48/63] fix: an unreadable bus message silently ends the
 polling of all topics

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 05a7ecd..14578f6 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -140,7 +140,12 @@ public:
         std::lock_guard<std::mutex> lock(mutex);
         auto search = _functionTopicMap.find(topic);
         if (search != _functionTopicMap.end()) {
-            _functionTopicMap[topic](event);
+            try {
+                _functionTopicMap[topic](event);
+            } catch (const std::exception &ex) {
+                // one message that cannot be read must not end the polling of the others.
+                spdlog::error("Message of topic {} dropped: {}", topic, ex.what());
+            }
         }
     }
 
-- 
2.43.0


From bab3e4ee0205d2eb41ca62fdd47191dd5da8dc64 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 49/63] fix: a bus topic cannot be registered again after it
 was unregistered

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index b4243b9..91f9b9b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -89,7 +89,11 @@ public:
      * @brief unregisterFromTopic
      * @param topic
      */
-    void unregisterFromTopic(const std::string &topic) { _zmqPoller->unregisterFromTopic(topic); }
+    void unregisterFromTopic(const std::string &topic)
+    {
+        _zmqPoller->unregisterFromTopic(topic);
+        _subscriberMap.erase(topic);
+    }
 
     /**
      * @brief start Launches the polling thread.
-- 
2.43.0


From 1a1b12dcb886bce0be4ca5ccf6b92d7cd172c21f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 50/63] fix: a binary bus message carries the tail of a longer
 one before it

---
 .../include/klepsydra/zmq_core/to_zmq_middleware_provider.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
index 9c250b9..27c20cf 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
@@ -91,7 +91,8 @@ public:
                 if (!event) {
                     event = new std::stringbuf;
                 }
-                event->pubseekpos(0);
+                // no rest of a longer message before.
+                static_cast<std::stringbuf *>(event)->str("");
             };
             std::function<void(Base &)> finalizerFunction = [](Base &event) { delete event; };
             std::unique_ptr<BinaryToZMQChannel> toZmqChannel{
-- 
2.43.0


From 453e3201e40ce096cd925322ba8decb8bbe4497e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 51/63] fix: a message bus environment is updated while it is
 being read

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h      |  7 ++++++-
 core/modules/zmq_mdlw/src/zmq_env.cpp                  | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..1ab1d20 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -19,7 +19,10 @@
 
 #include <zmq.hpp>
 
+#include <atomic>
 #include <future>
+#include <mutex>
+#include <thread>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -57,7 +60,7 @@ private:
     ZMQEnv *_zmqEnv;
     long _sourceId;
     int _pollPeriod;
-    bool _running;
+    std::atomic<bool> _running;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     std::thread _threadPoller;
 };
@@ -195,6 +198,8 @@ public:
 private:
     void publishConfiguration();
 
+    // The poller updates the decorated environment while its user reads or changes it.
+    std::mutex _mutex;
     ConfigurationEnvironment *_decorableEnv;
 
     zmq::socket_t &_zmqPublisher;
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..1ea5de4 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -88,6 +88,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -96,6 +97,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -104,6 +106,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -112,6 +115,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -120,6 +124,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -127,6 +132,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -135,6 +141,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -143,6 +150,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -151,12 +159,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     if (_decorableEnv->loadFile(fileName, nodeName)) {
         publishConfiguration();
         return true;
-- 
2.43.0


From cd4d684ad041c40ce4ca38977ac27ee8a0c998ec Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 52/63] fix: an unreadable bus message ends the process of an
 environment

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 1ea5de4..6181976 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -230,7 +230,12 @@ void kpsr::zmq_mdlw::ZMQConfigurationPoller::poll()
         std::string contentString(static_cast<char *>(content.data()), content.size());
         spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::on_data_available.");
         ZMQEnvironmentData environmentData;
-        mapper.fromMiddleware(contentString, environmentData);
+        try {
+            mapper.fromMiddleware(contentString, environmentData);
+        } catch (const std::exception &ex) {
+            spdlog::error("{} Message of topic {} dropped", ex.what(), topic);
+            return;
+        }
         if ((environmentData._configurationKey == _zmqKey) &&
             (environmentData._sourceId != _sourceId)) {
             spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. new data: {}",
-- 
2.43.0


From ab44e29eebc34497260a119bff99befaf06315c1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 53/63] fix: environments created in the same millisecond
 ignore each other's updates

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 6181976..6057cf3 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -25,6 +25,16 @@ static const std::string DEFAULT_ZMQ_TOPIC_NAME = "DEFAULT_ZMQ_TOPIC_NAME";
 static const std::string DEFAULT_ZMQ_ENV_KEY = "DEFAULT_ZMQ_ENV_KEY";
 static const int DEFAULT_ZMQ_ENV_POOL_PERIOD = 1000;
 
+// Environments created at the same time must not take each other's messages for their own.
+static long newSourceId()
+{
+    static std::atomic<long> count{0};
+    return std::chrono::duration_cast<std::chrono::nanoseconds>(
+               std::chrono::system_clock::now().time_since_epoch())
+               .count() +
+           count++;
+}
+
 kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
                                std::string zmqKey,
                                std::string topicName,
@@ -40,9 +50,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
     , _topicName(topicName)
     , _zmqKey(zmqKey)
     , _pollPeriod(pollPeriod)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(newSourceId())
     , mapper()
     , _isEnvLocal(true)
 {
@@ -66,9 +74,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
     : _zmqSubscriber(zmqSubscriber)
     , _decorableEnv(configurationEnvironment)
     , _zmqPublisher(zmqPublisher)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(newSourceId())
     , mapper()
     , _isEnvLocal(false)
 {
-- 
2.43.0


From b7b4ee2487abfd996d0f84c598e6191f8651681b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 54/63] fix: a managed service that is gone is still called on
 system events

---
 .../core/include/klepsydra/core/manage_service.h     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/manage_service.h b/core/modules/core/include/klepsydra/core/manage_service.h
index 5c130ed..b8a7d3d 100644
--- a/core/modules/core/include/klepsydra/core/manage_service.h
+++ b/core/modules/core/include/klepsydra/core/manage_service.h
@@ -19,6 +19,7 @@
 
 #include <atomic>
 #include <map>
+#include <memory>
 
 #include <spdlog/spdlog.h>
 
@@ -57,10 +58,17 @@ public:
                    Subscriber<SystemEventData> *systemStatusEventSubscriber,
                    std::string serviceName)
         : Service(nullptr, environment, serviceName, false)
+        , _self(std::make_shared<ManagedService *>(this))
     {
         if (systemStatusEventSubscriber != nullptr) {
+            // the subscriber may outlive the service.
+            std::weak_ptr<ManagedService *> weakSelf = _self;
             std::function<void(SystemEventData)> systemListener =
-                std::bind(&ManagedService::onSystemMessageReceived, this, std::placeholders::_1);
+                [weakSelf](const SystemEventData &event) {
+                    if (auto self = weakSelf.lock()) {
+                        (*self)->onSystemMessageReceived(event);
+                    }
+                };
             systemStatusEventSubscriber->registerListener(serviceName, systemListener);
         }
     }
@@ -80,6 +88,8 @@ private:
             shutdown();
         }
     }
+
+    std::shared_ptr<ManagedService *> _self;
 };
 } // namespace kpsr
 
-- 
2.43.0


From 45801eef1e64742a7f8e316febc8bc6f09200404 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 55/63] fix: a listener that throws silently ends the polling
 of an in-memory middleware

---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index fd94c66..848decc 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -63,7 +63,12 @@ void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
     while (isStarted() && isRunning()) {
-        takeEventFromQueue();
+        try {
+            takeEventFromQueue();
+        } catch (const std::exception &ex) {
+            // one listener that fails must not end the polling of all.
+            spdlog::error("Listener of {} failed: {}", _eventName, ex.what());
+        }
     }
 }
 
-- 
2.43.0


From e89686ea2ee70c47bc2b1401482d98c994aa6968 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 56/63] fix: a scheduled task does not start again for half an
 hour after a run of more than 35 minutes

---
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index b4b9bc9..9c0113e 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -39,7 +39,7 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
             long long before = 0;
             long long after = 0;
             while (_isRunning) {
-                int effectiveSleepTime = _after - (after - before);
+                long long effectiveSleepTime = _after - (after - before);
                 if (effectiveSleepTime > 0) {
                     std::this_thread::sleep_for(std::chrono::microseconds(effectiveSleepTime));
                 } else {
-- 
2.43.0


From 6272a35a697c68ba644f2211d58d680a0e793238 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 57/63] fix: setting the time of day breaks the period of
 scheduled tasks

---
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index 9c0113e..0193ab6 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -51,11 +51,11 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
                     break;
                 }
                 before = std::chrono::duration_cast<std::chrono::microseconds>(
-                             std::chrono::system_clock::now().time_since_epoch())
+                             std::chrono::steady_clock::now().time_since_epoch())
                              .count();
                 _task();
                 after = std::chrono::duration_cast<std::chrono::microseconds>(
-                            std::chrono::system_clock::now().time_since_epoch())
+                            std::chrono::steady_clock::now().time_since_epoch())
                             .count();
             }
         } else {
-- 
2.43.0


From c609e36a79a116e9b1787e704e3c071ce1c9b05e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:14:42 +0000
Subject: [PATCH 58/63] fix: setting the time of day back keeps a phased wait
 spinning, deaf to alerts

---
 .../wait_strategies/phased_backoff_wait_strategy.h        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
index d7c7ec2..523d168 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
@@ -69,7 +69,7 @@ public:
                      const TSequenceBarrier &seq_barrier)
     {
         int64_t available_sequence = 0;
-        std::chrono::system_clock::time_point start_time;
+        std::chrono::steady_clock::time_point start_time;
         int counter = SPIN_TRIES;
 
         do {
@@ -78,11 +78,11 @@ public:
 
             --counter;
             if (counter == 0) {
-                if (start_time.time_since_epoch() == std::chrono::system_clock::duration::zero())
-                    start_time = std::chrono::system_clock::now();
+                if (start_time.time_since_epoch() == std::chrono::steady_clock::duration::zero())
+                    start_time = std::chrono::steady_clock::now();
                 else {
                     int64_t time_delta = std::chrono::duration_cast<std::chrono::nanoseconds>(
-                                             std::chrono::system_clock::now() - start_time)
+                                             std::chrono::steady_clock::now() - start_time)
                                              .count();
                     if (time_delta > YieldTimeoutNanoseconds)
                         return fallback_strategy_.wait_for(seq,
-- 
2.43.0


From d8b9d0a5c77da3b1cdcced5945ea62120bcd3227 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 59/63] fix: an observer that registers or removes observers
 corrupts the notification

---
 .../modules/state_machine/src/state_machine_impl.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..2c1b60f 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,7 +74,9 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
+    // an observer may register others or remove them.
+    const auto observers = _observers;
+    for (auto observer : observers) {
         observer(_id + ":" + stateId, stateChanged);
     }
 }
-- 
2.43.0


From 3eebda994b74b22ecfc9b63859403dacefac6e8f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 60/63] fix: the observers after one that moves the machine on
 are told a state other than that of the step

---
 .../modules/state_machine/src/state_machine_impl.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 2c1b60f..93bc42e 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,10 +74,12 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
+    // an observer may move the machine on: the others are still told the state of this step.
+    const std::string currentState = _id + ":" + stateId;
     // an observer may register others or remove them.
     const auto observers = _observers;
     for (auto observer : observers) {
-        observer(_id + ":" + stateId, stateChanged);
+        observer(currentState, stateChanged);
     }
 }
 
-- 
2.43.0


From 09a98038b7e2a9498be198085bf5a4d6e39ad3c0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:22:32 +0000
Subject: [PATCH 61/63] fix: an update with a value of the wrong type erases or
 changes properties before it is rejected

---
 core/modules/core/src/configuration_environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index d2829f7..ff5d3d9 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -157,13 +157,16 @@ bool ConfigurationEnvironment::updateConfiguration(const std::string &jsonConten
 {
     std::stringstream ss;
     ss << jsonContent;
+    // content that cannot be read to its end must not take effect in part.
+    ConfigurationEnvironment updated(*this);
     try {
         ::cereal::JSONInputArchive iarchive(ss);
-        serialize(iarchive);
+        updated.serialize(iarchive);
     } catch (::cereal::Exception &ex) {
         spdlog::error("{} Error loading Environment from json string", ex.what());
         return false;
     }
+    *this = std::move(updated);
     return true;
 }
 
-- 
2.43.0


From 9171ca61b9d0e6cd9d458c60718b964850275734 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 62/63] fix: event loop lets go of an event a listener threw on

EventLoopEventHandler released the event only when the emission returned
normally, so an event during whose delivery a listener threw was kept until
its place in the ring was used again.
---
 .../high_performance/event_loop_event_handler.h       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
index 63d5ab9..d8b7cb4 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h
@@ -78,9 +78,14 @@ public:
                       __PRETTY_FUNCTION__,
                       event.eventName,
                       sequence);
-        _externalEventEmitter->emitEvent(event.eventName + "_external",
-                                         event.enqueuedTimeInNs,
-                                         event);
+        try {
+            _externalEventEmitter->emitEvent(event.eventName + "_external",
+                                             event.enqueuedTimeInNs,
+                                             event);
+        } catch (...) {
+            event.eventData.reset();
+            throw;
+        }
         event.eventData.reset();
     }
 
-- 
2.43.0


From 4af30fa70718689a5cb10c66e59d2fe0d7d042fb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:01:07 +0000
Subject: [PATCH 63/63] fix: writing to a socket whose peer has closed ended
 the process instead of being reported

---
 core/modules/socket_mdlw/src/data_socket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/src/data_socket.cpp b/core/modules/socket_mdlw/src/data_socket.cpp
index b8b9590..69fa20f 100644
--- a/core/modules/socket_mdlw/src/data_socket.cpp
+++ b/core/modules/socket_mdlw/src/data_socket.cpp
@@ -14,6 +14,7 @@
 
 #include <arpa/inet.h>
 #include <cstring>
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include <klepsydra/socket_core/data_socket.h>
@@ -24,7 +25,9 @@ void kpsr::socket_mdlw::DataSocket::putMessageData(char const *buffer, std::size
     std::size_t dataWritten = 0;
 
     while (dataWritten < size) {
-        std::size_t put = write(getSocketId(), buffer + dataWritten, size - dataWritten);
+        // A peer that closed its end is an error to report (EPIPE), not the end of the process.
+        std::size_t put =
+            ::send(getSocketId(), buffer + dataWritten, size - dataWritten, MSG_NOSIGNAL);
         if (put == static_cast<std::size_t>(-1)) {
             switch (errno) {
             case EINVAL:
-- 
2.43.0

