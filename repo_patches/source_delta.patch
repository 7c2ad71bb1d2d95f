From 642b8abb9125038513d7e9a24c7001b38cca21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 01/92] fix: synchronize the task queue's stored exception
 between the dispatcher and its clients

---
 external/concealer/src/task_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/external/concealer/src/task_queue.cpp b/external/concealer/src/task_queue.cpp
index daf7642..a5627b9 100644
--- a/external/concealer/src/task_queue.cpp
+++ b/external/concealer/src/task_queue.cpp
@@ -32,6 +32,7 @@ TaskQueue::TaskQueue()
         }
       }
     } catch (...) {
+      auto lock = std::unique_lock(thunks_mutex);
       thrown = std::current_exception();
     }
   })
@@ -66,6 +67,7 @@ auto TaskQueue::pop() -> void
 
 auto TaskQueue::rethrow() const -> void
 {
+  auto lock = std::unique_lock(thunks_mutex);
   if (thrown) {
     std::rethrow_exception(thrown);
   }
-- 
2.43.0


From 74c843e0061129377efe1e9692992c724e23a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 02/92] fix: release the status monitor's mutex before joining
 its watchdog

---
 common/status_monitor/src/status_monitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index fc8fc0c..8f8277f 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -59,7 +59,7 @@ StatusMonitor::StatusMonitor()
 
 StatusMonitor::~StatusMonitor()
 {
-  auto lock = std::scoped_lock<std::mutex>(mutex);
+  auto lock = std::unique_lock<std::mutex>(mutex);
 
   auto mark_as_exited = []() {
     if (auto iter = statuses.find(std::this_thread::get_id()); iter != std::end(statuses)) {
@@ -71,6 +71,7 @@ StatusMonitor::~StatusMonitor()
 
   if (not --count) {
     terminating.store(true, std::memory_order_release);
+    lock.unlock();  // The watchdog may be waiting for this mutex to write the last status.
     watchdog.join();
     terminating.store(false, std::memory_order_release);
 
-- 
2.43.0


From 38de9f39803ff01f4b5136a605159961d4e577cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 03/92] fix: grid traversal of segments that start on a cell
 boundary or at negative coordinates

---
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..782361d 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,11 +33,11 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  double tx = vx_ > 0 ? std::floor(start_x_) + 1.0 : std::floor(start_x_);
+  double ty = vy_ > 0 ? std::floor(start_y_) + 1.0 : std::floor(start_y_);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(std::floor(start_x_)), int32_t(std::floor(start_y_))};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
-- 
2.43.0


From b7e2490ae8815ee8f7728743e7326e2e3fd0f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 04/92] fix: keep the fractional seconds of each suite in the
 total time of a JUnit report

---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index a60b93c..29640c2 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From daf7f6408318ac1b663fbeb7997edac7bf063888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 05/92] fix: count test cases, not suites, in the tests
 attribute of a JUnit report

---
 common/simple_junit/include/simple_junit/test_suites.hpp | 7 +++++++
 common/simple_junit/src/test_suites.cpp                  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index 29640c2..502de20 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -60,6 +60,13 @@ public:
       });
   }
 
+  auto getTotalTests() const
+  {
+    return std::accumulate(
+      std::cbegin(test_suites_), std::cend(test_suites_), std::size_t(0),
+      [](const auto sum, const auto & each_suite) { return sum + std::get<1>(each_suite).size(); });
+  }
+
   template <typename... Ts>
   void addTestCase(
     const std::string & suite_name,  //
diff --git a/common/simple_junit/src/test_suites.cpp b/common/simple_junit/src/test_suites.cpp
index 07a8cff..5b7a319 100644
--- a/common/simple_junit/src/test_suites.cpp
+++ b/common/simple_junit/src/test_suites.cpp
@@ -37,7 +37,7 @@ void TestSuites::write(const std::filesystem::path & destination)
   node.append_attribute("timestamp") = timestamp_.c_str();
 
   document.child("testsuites").append_attribute("time") = getTotalTime();
-  document.child("testsuites").append_attribute("tests") = test_suites_.size();
+  document.child("testsuites").append_attribute("tests") = getTotalTests();
 
   for (const auto & each : test_suites_) {
     const auto & suite_name = std::get<0>(each);
-- 
2.43.0


From 14df670c779c506a8392a96c5ece057f48ca75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 06/92] fix: refuse negative literals of the unsigned types
 instead of wrapping them around

---
 .../src/syntax/unsigned_integer.cpp                   | 11 ++++++++++-
 .../src/syntax/unsigned_short.cpp                     | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..fee5cdd 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <openscenario_interpreter/syntax/unsigned_integer.hpp>
+#include <string>
 
 namespace openscenario_interpreter
 {
@@ -27,6 +28,10 @@ UnsignedInteger::UnsignedInteger(value_type value) { data = value; }
 UnsignedInteger::UnsignedInteger(const std::string & s)
 {
   try {
+    // NOTE: Given a negative number, lexical_cast to an unsigned type does not fail but wraps around.
+    if (s.find('-') != std::string::npos) {
+      throw boost::bad_lexical_cast();
+    }
     data = boost::lexical_cast<value_type>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
@@ -55,7 +60,11 @@ UnsignedInteger::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedInteger & datum) -> std::istream &
 {
-  return is >> datum.data;
+  if (std::string token; is >> token) {
+    datum = UnsignedInteger(token);
+  }
+
+  return is;
 }
 
 auto operator<<(std::ostream & os, const UnsignedInteger & datum) -> std::ostream &
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..11d3470 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -15,6 +15,7 @@
 #include <boost/lexical_cast.hpp>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/syntax/unsigned_short.hpp>
+#include <string>
 
 namespace openscenario_interpreter
 {
@@ -29,6 +30,10 @@ UnsignedShort::UnsignedShort(value_type value) { data = value; }
 UnsignedShort::UnsignedShort(const std::string & s)
 {
   try {
+    // NOTE: Given a negative number, lexical_cast to an unsigned type does not fail but wraps around.
+    if (s.find('-') != std::string::npos) {
+      throw boost::bad_lexical_cast();
+    }
     data = boost::lexical_cast<value_type>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
@@ -57,7 +62,11 @@ UnsignedShort::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedShort & datum) -> std::istream &
 {
-  return is >> datum.data;
+  if (std::string token; is >> token) {
+    datum = UnsignedShort(token);
+  }
+
+  return is;
 }
 
 auto operator<<(std::ostream & os, const UnsignedShort & datum) -> std::ostream &
-- 
2.43.0


From 8454604ff236b606d96f43b359dc68bfbe9b179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 07/92] fix: refuse boolean parameter values that only begin
 with true or false

---
 openscenario/openscenario_interpreter/src/syntax/boolean.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
index bef6f81..4b8caa7 100644
--- a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
@@ -32,7 +32,9 @@ Boolean::Boolean(const std::string & target)
 {
   std::stringstream interpreter;
 
-  if (!(interpreter << target && interpreter >> std::boolalpha >> data)) {
+  if (
+    !(interpreter << target && interpreter >> std::boolalpha >> data) or
+    !(interpreter >> std::ws).eof()) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(target);
   }
 }
-- 
2.43.0


From 34e83a2643d095cd350bbd45bd6d16c89d344344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 08/92] fix: make notEqualTo the negation of equalTo

---
 .../include/openscenario_interpreter/syntax/rule.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
index 56b2e55..fbee60d 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
@@ -92,7 +92,7 @@ struct Rule
         return std::less_equal()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       case notEqualTo:
-        return std::not_equal_to()(
+        return not equal_to<T>()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       default:
         return {};
-- 
2.43.0


From f2a1548a17cfac698ebb1211bace1e2d5517fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 09/92] fix: compare equal infinities as equal

---
 .../functional/equal_to.hpp                         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
index 7657557..21e8109 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
@@ -35,7 +35,9 @@ struct equal_to<T, typename std::enable_if<std::is_floating_point<T>::value>::ty
 {
   constexpr auto operator()(const T & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    // NOTE: The difference of two equal infinities is not a number.
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 };
 
@@ -45,17 +47,20 @@ struct equal_to<std::valarray<T>, typename std::enable_if<std::is_floating_point
   constexpr auto operator()(
     const std::valarray<T> & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 
   constexpr auto operator()(const std::valarray<T> & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 
   constexpr auto operator()(const T & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 };
 }  // namespace syntax
-- 
2.43.0


From 0ce17778b872abf49ca3694563f2d5243114b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 10/92] Revert "fix: count test cases, not suites, in the tests
 attribute of a JUnit report"

This reverts commit daf7f6408318ac1b663fbeb7997edac7bf063888.
---
 common/simple_junit/include/simple_junit/test_suites.hpp | 7 -------
 common/simple_junit/src/test_suites.cpp                  | 2 +-
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index 502de20..29640c2 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -60,13 +60,6 @@ public:
       });
   }
 
-  auto getTotalTests() const
-  {
-    return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), std::size_t(0),
-      [](const auto sum, const auto & each_suite) { return sum + std::get<1>(each_suite).size(); });
-  }
-
   template <typename... Ts>
   void addTestCase(
     const std::string & suite_name,  //
diff --git a/common/simple_junit/src/test_suites.cpp b/common/simple_junit/src/test_suites.cpp
index 5b7a319..07a8cff 100644
--- a/common/simple_junit/src/test_suites.cpp
+++ b/common/simple_junit/src/test_suites.cpp
@@ -37,7 +37,7 @@ void TestSuites::write(const std::filesystem::path & destination)
   node.append_attribute("timestamp") = timestamp_.c_str();
 
   document.child("testsuites").append_attribute("time") = getTotalTime();
-  document.child("testsuites").append_attribute("tests") = getTotalTests();
+  document.child("testsuites").append_attribute("tests") = test_suites_.size();
 
   for (const auto & each : test_suites_) {
     const auto & suite_name = std::get<0>(each);
-- 
2.43.0


From fcf99b4ce0e8c3ff412927cfe79fac4c4a1c6112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 11/92] Revert "fix: keep the fractional seconds of each suite
 in the total time of a JUnit report"

This reverts commit b7e2490ae8815ee8f7728743e7326e2e3fd0f14c.
---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index 29640c2..a60b93c 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From fa5a14fb1912170316498ac38df785608dca2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 12/92] fix: let an overriding event end only the running
 events of its maneuver

---
 openscenario/openscenario_interpreter/src/syntax/maneuver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 8bd3fc4..04a95f6 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -48,7 +48,9 @@ auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
     assert(element.is<Event>());
-    element.as<Event>().override();
+    if (element.as<Event>().is<StoryboardElementState::runningState>()) {
+      element.as<Event>().override();
+    }
   }
 }
 
-- 
2.43.0


From 680e7d66c9c9b1e2b1fccee3801f07f7d44f6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 13/92] fix: stop the children that have not started when a
 storyboard element is stopped

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..29d7d42 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -120,7 +120,12 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
+      // NOTE: An element still in standbyState must be stopped too, or else evaluating it may start it.
+      if (element.as<StoryboardElement>().is<StoryboardElementState::standbyState>()) {
+        element.as<StoryboardElement>().transitionTo(stop_transition);
+      } else {
+        element.as<StoryboardElement>().override();
+      }
       element.evaluate();
     }
   }
-- 
2.43.0


From 9c799fddb051beb7b286369806fd347c8e469500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 14/92] fix: execute the events of a maneuver anew when its
 group is executed again

---
 .../include/openscenario_interpreter/syntax/maneuver.hpp | 2 ++
 .../syntax/storyboard_element.hpp                        | 9 +++++++++
 .../openscenario_interpreter/src/syntax/maneuver.cpp     | 9 +++++++++
 3 files changed, 20 insertions(+)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
index 83d7d7a..adbd933 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
@@ -44,6 +44,8 @@ struct Maneuver : public Scope, public StoryboardElement
 
   auto run() -> void override;
 
+  auto start() -> void override;
+
   auto overrideEvents() -> void;
 
   auto running_events_count() const -> std::size_t;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 29d7d42..3235dd2 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -96,6 +96,15 @@ public:
     return current_state;
   }
 
+  // NOTE: Only the parent StoryboardElement that initiates a new execution may reset its children.
+  auto reset() -> void
+  {
+    if (is<StoryboardElementState::completeState>()) {
+      current_execution_count = 0;
+      transitionTo(standby_state);
+    }
+  }
+
 private:
   virtual auto accomplished() const -> bool
   {
diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 04a95f6..bb8dc91 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -44,6 +44,15 @@ auto Maneuver::run() -> void
   }
 }
 
+auto Maneuver::start() -> void
+{
+  // NOTE: A new execution of the parent ManeuverGroup executes the Events anew.
+  for (auto && element : elements) {
+    assert(element.is<Event>());
+    element.as<Event>().reset();
+  }
+}
+
 auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
-- 
2.43.0


From 32a5cecc4e99f8cc258de04e30c8b3348570faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 15/92] fix: consider every evaluation a condition's delay
 passes by, once

---
 .../syntax/condition.hpp                      | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition.hpp
index a6c78b7..48a594f 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition.hpp
@@ -76,15 +76,28 @@ private:
   auto update_condition(std::function<bool(Booleans...)> condition) -> Object
   {
     histories.push_back({evaluateSimulationTime(), ComplexType::evaluate().as<Boolean>()});
-    if (auto iterator = std::find_if(
-          std::begin(histories), std::end(histories),
-          [this](const auto & entry) { return entry.time > histories.back().time - delay; });
-        static_cast<std::ptrdiff_t>(sizeof...(Booleans)) <=
-        std::distance(std::begin(histories), iterator)) {
-      current_value = std::apply(condition, std::tuple{Booleans((--iterator)->result)...});
-      histories.erase(std::begin(histories), iterator);
+    // NOTE: The simulation time does not advance by exact multiples of the delay, so that none or
+    // several of the past evaluations may go beyond the delay at once. Each must be considered, once.
+    auto is_past = [this](const auto & entry) {
+      return not(entry.time > histories.back().time - delay);
+    };
+    if constexpr (sizeof...(Booleans) == 1) {
+      if (is_past(histories.front())) {
+        current_value = condition(histories.front().result);
+        while (histories.size() > 1 and is_past(*std::next(histories.begin()))) {
+          histories.pop_front();
+          current_value = condition(histories.front().result);
+        }
+      } else {
+        current_value = false;
+      }
     } else {
       current_value = false;
+      while (histories.size() > 1 and is_past(*std::next(histories.begin()))) {
+        const auto previous = histories.front().result;
+        histories.pop_front();
+        current_value |= condition(histories.front().result, previous);
+      }
     }
     return asBoolean(current_value);
   }
-- 
2.43.0


From c0ad7123fb04b9fe012750edd0b3b24d93895857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 16/92] fix: leave completed storyboard elements complete when
 their parent is stopped

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 3235dd2..c72ed42 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -90,6 +90,7 @@ public:
   {
     if (
       not is<StoryboardElementState::standbyState>() and
+      not is<StoryboardElementState::completeState>() and
       not is<StoryboardElementState::stopTransition>()) {
       transitionTo(stop_transition);
     }
-- 
2.43.0


From 80d3a6c5ebffdfc1ea900575e0fb45467a9451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 17/92] fix: let a storyboard element state condition become
 false again

---
 .../storyboard_element_state_condition.hpp    |  2 ++
 .../storyboard_element_state_condition.cpp    | 34 ++++++++-----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
index fde34c8..64bb1f5 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
@@ -43,6 +43,8 @@ struct StoryboardElementStateCondition : private Scope
 
   StoryboardElementState current_state;
 
+  bool transitioned = false;  // to the given state, since the last evaluation
+
   explicit StoryboardElementStateCondition(const pugi::xml_node &, const Scope &);
 
   auto description() const -> String;
diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..8fbdbdc 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -46,7 +46,7 @@ StoryboardElementStateCondition::StoryboardElementStateCondition(
     local()
       .ref<StoryboardElement>(storyboard_element_ref)
       .addTransitionCallback(state, [this](auto && storyboard_element) {
-        current_state = storyboard_element.state().template as<StoryboardElementState>();
+        transitioned |= storyboard_element.state().template as<StoryboardElementState>() == state;
       });
   };
 
@@ -65,27 +65,23 @@ auto StoryboardElementStateCondition::description() const -> String
 
 auto StoryboardElementStateCondition::evaluate() -> Object
 {
-  auto update = [this]() {
-    auto storyboard_element = [this]() {
-      return local().ref<StoryboardElement>(storyboard_element_ref);
-    };
-    return current_state = storyboard_element().state().template as<StoryboardElementState>();
-  };
-
   /*
-     Note that current_state may have been updated by a callback function set
-     in the constructor (before this member function was called).  And at this
-     point local().ref<StoryboardElement>(storyboard_element_ref).state() may
-     have transitioned to a different state than the one recorded in
-     current_state.
+     Note that the callback function set in the constructor may have been
+     called before this member function was called, and that at this point
+     local().ref<StoryboardElement>(storyboard_element_ref).state() may have
+     transitioned to a different state than the one being monitored.
 
-     Therefore, we must first check to see if the callback function has updated
-     current_state (= has the StoryboardElement transitioned to the monitored
-     state at least once since the last time evaluate was called), and then
-     check to see if the current StoryboardElement state is indeed the state
-     being monitored.
+     Therefore, we must check both if the callback function has been called
+     (= has the StoryboardElement transitioned to the monitored state at least
+     once since the last time evaluate was called), and if the current
+     StoryboardElement state is indeed the state being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  current_state = local()
+                    .ref<StoryboardElement>(storyboard_element_ref)
+                    .state()
+                    .as<StoryboardElementState>();
+
+  return asBoolean(std::exchange(transitioned, false) or current_state == state);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From b48a41dc6c69048e3f5602d6d2b5e4c5e7854e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 18/92] fix: record a scenario that has timed out in the
 results

---
 .../src/openscenario_interpreter.cpp                   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index 8467d7e..dc3093b 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -298,6 +298,16 @@ auto Interpreter::on_activate(const rclcpp_lifecycle::State &) -> Result
 
 auto Interpreter::on_deactivate(const rclcpp_lifecycle::State &) -> Result
 {
+  /*
+     If the result is still the one set by on_configure, the scenario has not
+     been decided and this node was deactivated from outside, so the time out
+     has to be recorded here.
+  */
+  if (const auto failure = std::get_if<common::junit::Failure>(&result);
+      failure and failure->type == "Timeout") {
+    set<common::junit::Failure>(failure->type, failure->message);
+  }
+
   reset();
 
   return Interpreter::Result::SUCCESS;  // => Inactive
-- 
2.43.0


From 84b10fe952e6a0b0f973a9bbe45331b27b92fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 19/92] fix: refuse prefixed names that do not exist instead of
 finding another element

---
 .../openscenario_interpreter/scope.hpp        | 22 ++++++++++++---
 .../openscenario_interpreter/src/scope.cpp    | 28 ++++++++-----------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
index ea43afa..8fae4f7 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
@@ -70,7 +70,7 @@ public:
   auto define(const Name &, const Object &) -> void;
 
   template <typename T>
-  auto find(const Name & name) const -> Object
+  auto findInside(const Name & name) const -> Object
   {
     // NOTE: breadth first search
     for (std::vector<const EnvironmentFrame *> frames{this}; not frames.empty();) {
@@ -104,7 +104,17 @@ public:
       }
     }
 
-    return isOutermost() ? throw NoSuchVariableNamed<T>(name) : outer_frame->find<T>(name);
+    return Object();
+  }
+
+  template <typename T>
+  auto find(const Name & name) const -> Object
+  {
+    if (const auto found = findInside<T>(name)) {
+      return found;
+    } else {
+      return isOutermost() ? throw NoSuchVariableNamed<T>(name) : outer_frame->find<T>(name);
+    }
   }
 
   template <typename T>
@@ -120,8 +130,10 @@ public:
         default:
           throw AmbiguousReferenceTo<T>(boost::lexical_cast<std::string>(prefixed_name));
       }
+    } else if (const auto found = findInside<T>(prefixed_name.name)) {
+      return found;
     } else {
-      return find<T>(prefixed_name.name);
+      throw NoSuchVariableNamed<T>(prefixed_name.name);
     }
   }
 
@@ -132,8 +144,10 @@ public:
       return outermostFrame().find<T>(prefixed_name);
     } else if (prefixed_name.prefixes.empty()) {
       return find<T>(prefixed_name.name);
+    } else if (const auto found = lookupFrame(prefixed_name)) {
+      return found->template find<T>(prefixed_name.strip<1>());
     } else {
-      return lookupFrame(prefixed_name)->find<T>(prefixed_name.strip<1>());
+      throw NoSuchVariableNamed<T>(boost::lexical_cast<std::string>(prefixed_name));
     }
   }
 
diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index 9aa255b..0227394 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -69,22 +69,18 @@ auto EnvironmentFrame::lookupFrame(const Prefixed<Name> & prefixed_name) const
 {
   assert(not prefixed_name.prefixes.empty());
 
-  if (isOutermost()) {
-    return this;
-  } else {
-    auto sibling_scope = outer_frame->resolvePrefix(prefixed_name);
-    switch (sibling_scope.size()) {
-      case 0:
-        assert(outer_frame);
-        return outer_frame->lookupFrame(prefixed_name);
-      case 1:
-        assert(sibling_scope.front());
-        return sibling_scope.front();
-      default:
-        throw SyntaxError(
-          "There are multiple StoryboardElements that can be referenced by the name ",
-          std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
-    }
+  auto sibling_scope = (isOutermost() ? this : outer_frame)->resolvePrefix(prefixed_name);
+
+  switch (sibling_scope.size()) {
+    case 0:
+      return isOutermost() ? nullptr : outer_frame->lookupFrame(prefixed_name);
+    case 1:
+      assert(sibling_scope.front());
+      return sibling_scope.front();
+    default:
+      throw SyntaxError(
+        "There are multiple StoryboardElements that can be referenced by the name ",
+        std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
   }
 }
 
-- 
2.43.0


From 4e1228cc47d161e944814eb67df7e93354c400a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 20/92] fix: refuse empty names instead of reading outside of
 the name

---
 .../include/openscenario_interpreter/name.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
index 299f613..5a73456 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
@@ -57,7 +57,7 @@ struct Prefixed  // NOTE: 1.4.5. Naming conventions for OpenSCENARIO references
   }
 
   explicit Prefixed(const std::vector<std::string> given)
-  : absolute(not given.empty() and given.front().empty()),
+  : absolute(1 < given.size() and given.front().empty()),
     prefixes(
       absolute ? std::next(std::begin(given)) : std::begin(given), std::prev(std::end(given))),
     name(given.back())
-- 
2.43.0


From cbaf399cb3575ab5104fa9f46d9dc49542744f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 21/92] fix: evaluate expressions without truncation,
 wrap-around or loss of digits

sqrt truncated its result to an integer, arithmetic of integers wrapped around
(in the mixed signedness of its operands, too), % on integers gave a value that
was converted back to an integer, booleans were accepted as numbers by division
and functions, ${} was accepted, and real results were printed with only six
digits after the point.
---
 .../openscenario_interpreter/src/evaluate.cpp | 90 ++++++++++++++-----
 1 file changed, 66 insertions(+), 24 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index b9f8ea6..18b6b2e 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -12,8 +12,12 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <array>
 #include <boost/spirit/include/phoenix.hpp>
 #include <boost/spirit/include/qi.hpp>
+#include <charconv>
+#include <cmath>
+#include <cstdint>
 #include <functional>
 #include <openscenario_interpreter/reader/evaluate.hpp>
 #include <openscenario_interpreter/scope.hpp>
@@ -25,24 +29,55 @@ namespace openscenario_interpreter
 {
 inline namespace reader
 {
+// Arithmetic that refuses a result which does not fit in the integer type.
+#define DEFINE_CHECKED_ARITHMETIC(NAME, OPERATOR, BUILTIN)                              \
+  struct NAME                                                                           \
+  {                                                                                     \
+    template <typename T, typename U>                                                   \
+    auto operator()(T lhs, U rhs) const                                                 \
+    {                                                                                   \
+      if constexpr (std::is_integral_v<T> and std::is_integral_v<U>) {                  \
+        if (std::int64_t result; BUILTIN(lhs, rhs, &result)) {                          \
+          throw std::runtime_error{"the result of integer arithmetic is out of range"}; \
+        } else {                                                                        \
+          return result;                                                                \
+        }                                                                               \
+      } else {                                                                          \
+        return lhs OPERATOR rhs;                                                        \
+      }                                                                                 \
+    }                                                                                   \
+  }
+
+DEFINE_CHECKED_ARITHMETIC(CheckedAdd, +, __builtin_add_overflow);
+DEFINE_CHECKED_ARITHMETIC(CheckedSubtract, -, __builtin_sub_overflow);
+DEFINE_CHECKED_ARITHMETIC(CheckedMultiply, *, __builtin_mul_overflow);
+
+#undef DEFINE_CHECKED_ARITHMETIC
+
+static auto checkedInteger(double value) -> std::int64_t
+{
+  // 2^63 is representable as double, the greatest std::int64_t is not.
+  if (constexpr auto limit = 9223372036854775808.0; -limit <= value and value < limit) {
+    return static_cast<std::int64_t>(value);
+  } else {
+    throw std::runtime_error{"the value is out of the range of integers"};
+  }
+}
+
 struct Value
 {
-  using ExpressionType = std::variant<int, unsigned int, unsigned short, double, bool>;
+  using ExpressionType = std::variant<std::int64_t, double, bool>;
   ExpressionType data;
 
   struct Numeric;
 
-  Value() : data(0) {}
+  Value() : data(std::int64_t(0)) {}
 
   Value(const Value &) = default;
 
   Value(Value &&) = default;
 
-  explicit Value(int v) : data(v) {}
-
-  explicit Value(unsigned int v) : data(v) {}
-
-  explicit Value(unsigned short v) : data(v) {}
+  explicit Value(std::int64_t v) : data(v) {}
 
   explicit Value(double v) : data(v) {}
 
@@ -115,18 +150,18 @@ struct Value
   }
 
   // clang-format off
-  DEFINE_UNARY(round, [](double v) { return static_cast<int>(std::round(v)); }, double, int)
-  DEFINE_UNARY(floor, [](double v) { return static_cast<int>(std::floor(v)); }, double, int)
-  DEFINE_UNARY(ceil,  [](double v) { return static_cast<int>(std::ceil(v)); },  double, int)
-  DEFINE_UNARY(sqrt,  [](double v) { return static_cast<int>(std::sqrt(v)); },  double, int)
+  DEFINE_UNARY(round, [](double v) { return checkedInteger(std::round(v)); }, double, std::int64_t)
+  DEFINE_UNARY(floor, [](double v) { return checkedInteger(std::floor(v)); }, double, std::int64_t)
+  DEFINE_UNARY(ceil,  [](double v) { return checkedInteger(std::ceil(v)); },  double, std::int64_t)
+  DEFINE_UNARY(sqrt,  [](double v) { return std::sqrt(v); },                   double, double)
   // clang-format on
-  DEFINE_UNARY(operator-, -, Numeric, Numeric)
+  DEFINE_UNARY(operator-, [](auto v) { return CheckedSubtract{}(std::int64_t(0), v); }, Numeric, Numeric)
   DEFINE_UNARY(operator!, !, bool, bool)
 
-  DEFINE_BINARY(operator*, std::multiplies<void>{}, Numeric)
-  DEFINE_BINARY(operator+, std::plus<void>{}, Numeric)
-  DEFINE_BINARY(operator-, std::minus<void>{}, Numeric)
-  DEFINE_BINARY(operator%, std::fmod, Numeric)
+  DEFINE_BINARY(operator*, CheckedMultiply{}, Numeric)
+  DEFINE_BINARY(operator+, CheckedAdd{}, Numeric)
+  DEFINE_BINARY(operator-, CheckedSubtract{}, Numeric)
+  DEFINE_BINARY(operator%, std::fmod, double)
   DEFINE_BINARY(operator/, std::divides<double>{}, double)
   DEFINE_BINARY(operator&&, std::logical_and<bool>{}, bool)
   DEFINE_BINARY(operator||, std::logical_or<bool>{}, bool)
@@ -149,6 +184,7 @@ auto Value::cast() const -> Value
 {
   if (same_as<double>() and std::is_integral<T>::value)
     throw std::runtime_error{"double cannot convert to integer implicitly."};
+  if (same_as<bool>()) throw std::runtime_error{"boolean cannot convert to numeric."};
   return Value{visit([](auto v) { return static_cast<T>(v); }, data)};
 }
 
@@ -177,6 +213,7 @@ struct Grammar : qi::grammar<Iter, Value(), ascii::space_type>
     using qi::_2;
     using qi::_val;
     const static qi::real_parser<double, qi::strict_real_policies<double>> dbl;
+    const static qi::int_parser<std::int64_t> int64;
 
     // clang-format off
     lv0 = lv1[_val = _1] >> *(qi::lit("or") >> lv1[_val = _val or _1]);
@@ -196,7 +233,7 @@ struct Grammar : qi::grammar<Iter, Value(), ascii::space_type>
           | qi::lit("true")[_val = ph::construct<Value>(true)]
           | qi::lit("false")[_val = ph::construct<Value>(false)]
           | dbl[_val = ph::construct<Value>(_1)]
-          | qi::int_[_val = ph::construct<Value>(_1)]
+          | int64[_val = ph::construct<Value>(_1)]
           | qi::lexeme[qi::lit('$') >> *qi::char_("A-Za-z0-9_")][_val = ph::bind(
               [scope](auto&& chars) {
                 return toValue(std::string(chars.begin(), chars.end()), scope);
@@ -212,11 +249,11 @@ struct Grammar : qi::grammar<Iter, Value(), ascii::space_type>
     }
 
     if (found.is<Integer>()) {
-      return Value{static_cast<int>(found.as<Integer>())};
+      return Value{static_cast<std::int64_t>(found.as<Integer>())};
     } else if (found.is<UnsignedInt>()) {
-      return Value{static_cast<unsigned int>(found.as<UnsignedInt>())};
+      return Value{static_cast<std::int64_t>(found.as<UnsignedInt>())};
     } else if (found.is<UnsignedShort>()) {
-      return Value{static_cast<unsigned short>(found.as<UnsignedShort>())};
+      return Value{static_cast<std::int64_t>(found.as<UnsignedShort>())};
     } else if (found.is<Double>()) {
       return Value{found.as<Double>()};
     } else if (found.is<Boolean>()) {
@@ -236,16 +273,21 @@ std::string evaluate(const std::string & expression, const Scope & scope)
   auto first = expression.begin();
   auto last = expression.end();
 
-  qi::phrase_parse(first, last, parser, ascii::space, output);
-
-  if (first != last) {
+  if (not qi::phrase_parse(first, last, parser, ascii::space, output) or first != last) {
     THROW_SYNTAX_ERROR("Failed to parse ", std::quoted(expression));
   }
 
   return visit(
     overload(
       [](bool v) -> std::string { return v ? "true" : "false"; },
-      [](auto v) -> std::string { return std::to_string(v); }),
+      [](std::int64_t v) -> std::string { return std::to_string(v); },
+      [](double v) -> std::string {
+        // The shortest representation that is read back as the same value.
+        std::array<char, 32> buffer;
+        const auto result = std::string(
+          buffer.data(), std::to_chars(buffer.data(), buffer.data() + buffer.size(), v).ptr);
+        return result.find_first_not_of("-0123456789") == std::string::npos ? result + ".0" : result;
+      }),
     output.data);
 }
 
-- 
2.43.0


From 37258f2403717c33ffa4cd2997b7c7b4afdd755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 22/92] fix: modify integer parameters by the value given,
 within the range of their type

The value to add or multiply was cut off to an unsigned integer before it was
applied (multiplying by 0.5 gave 0), and results out of range wrapped around.
---
 .../openscenario_interpreter/syntax/unsigned_integer.hpp | 4 ++--
 .../openscenario_interpreter/syntax/unsigned_short.hpp   | 4 ++--
 .../openscenario_interpreter/src/syntax/integer.cpp      | 5 +++--
 .../src/syntax/unsigned_integer.cpp                      | 9 +++++----
 .../src/syntax/unsigned_short.cpp                        | 9 +++++----
 5 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
index 8e05247..71ae575 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
@@ -37,9 +37,9 @@ struct UnsignedInteger
 
   auto operator++() noexcept -> UnsignedInteger &;
 
-  auto operator+=(const value_type &) -> UnsignedInteger &;
+  auto operator+=(const double &) -> UnsignedInteger &;
 
-  auto operator*=(const value_type &) -> UnsignedInteger &;
+  auto operator*=(const double &) -> UnsignedInteger &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
index 958076e..9d95245 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
@@ -36,9 +36,9 @@ struct UnsignedShort
 
   auto operator++() noexcept -> UnsignedShort &;
 
-  auto operator+=(const value_type &) -> UnsignedShort &;
+  auto operator+=(const double &) -> UnsignedShort &;
 
-  auto operator*=(const value_type &) -> UnsignedShort &;
+  auto operator*=(const double &) -> UnsignedShort &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/integer.cpp b/openscenario/openscenario_interpreter/src/syntax/integer.cpp
index e85244d..11a07a2 100644
--- a/openscenario/openscenario_interpreter/src/syntax/integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/integer.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <boost/numeric/conversion/cast.hpp>
 #include <openscenario_interpreter/syntax/integer.hpp>
 #include <string>
 
@@ -46,13 +47,13 @@ auto Integer::min() noexcept -> Integer
 
 auto Integer::operator+=(const double & rhs) -> Integer &
 {
-  data += rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) + rhs);
   return *this;
 }
 
 auto Integer::operator*=(const double & rhs) -> Integer &
 {
-  data *= rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) * rhs);
   return *this;
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index fee5cdd..827f720 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <boost/numeric/conversion/cast.hpp>
 #include <openscenario_interpreter/syntax/unsigned_integer.hpp>
 #include <string>
 
@@ -44,15 +45,15 @@ auto UnsignedInteger::operator++() noexcept -> UnsignedInteger &
   return *this;
 }
 
-auto UnsignedInteger::operator+=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator+=(const double & rhs) -> UnsignedInteger &
 {
-  data += rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) + rhs);
   return *this;
 }
 
-auto UnsignedInteger::operator*=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator*=(const double & rhs) -> UnsignedInteger &
 {
-  data *= rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) * rhs);
   return *this;
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index 11d3470..1332639 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <boost/lexical_cast.hpp>
+#include <boost/numeric/conversion/cast.hpp>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/syntax/unsigned_short.hpp>
 #include <string>
@@ -46,15 +47,15 @@ auto UnsignedShort::operator++() noexcept -> UnsignedShort &
   return *this;
 }
 
-auto UnsignedShort::operator+=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator+=(const double & rhs) -> UnsignedShort &
 {
-  data += rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) + rhs);
   return *this;
 }
 
-auto UnsignedShort::operator*=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator*=(const double & rhs) -> UnsignedShort &
 {
-  data *= rhs;
+  data = boost::numeric_cast<value_type>(static_cast<long double>(data) * rhs);
   return *this;
 }
 
-- 
2.43.0


From c6441b80db41fea1fede7dc05d7c8d53e89b771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 23/92] fix: DeleteEntityAction clears the entity's added state

---
 .../syntax/delete_entity_action.hpp                      | 9 ++++-----
 .../src/syntax/delete_entity_action.cpp                  | 5 +++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
index e27ad6d..a906999 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
@@ -15,8 +15,10 @@
 #ifndef OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 #define OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 
+#include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/entity_ref.hpp>
+#include <pugixml.hpp>
 
 namespace openscenario_interpreter
 {
@@ -27,12 +29,9 @@ inline namespace syntax
  *  <xsd:complexType name="DeleteEntityAction"/>
  *
  * -------------------------------------------------------------------------- */
-struct DeleteEntityAction : private SimulatorCore::ActionApplication
+struct DeleteEntityAction : private Scope, private SimulatorCore::ActionApplication
 {
-  template <typename... Ts>
-  explicit DeleteEntityAction(Ts &&...)
-  {
-  }
+  explicit DeleteEntityAction(const pugi::xml_node &, Scope &);
 
   auto operator()(const EntityRef &) const -> void;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
index 60b346a..bb1bb11 100644
--- a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
@@ -14,14 +14,19 @@
 
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/delete_entity_action.hpp>
+#include <openscenario_interpreter/syntax/entities.hpp>
+#include <openscenario_interpreter/syntax/scenario_object.hpp>
 
 namespace openscenario_interpreter
 {
 inline namespace syntax
 {
+DeleteEntityAction::DeleteEntityAction(const pugi::xml_node &, Scope & scope) : Scope(scope) {}
+
 auto DeleteEntityAction::operator()(const EntityRef & entity_ref) const -> void
 {
   applyDeleteEntityAction(entity_ref);
+  global().entities->ref(entity_ref).as<ScenarioObject>().is_added = false;
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 0281403e8656f42540756c9ca79ebc1e1fe671a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 24/92] fix: RelativeClearanceCondition excludes every
 triggering entity whatever the rule

---
 .../src/syntax/relative_clearance_condition.cpp     | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index b89e898..ab78d22 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <boost/math/constants/constants.hpp>
 #include <openscenario_interpreter/reader/attribute.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
@@ -178,16 +179,12 @@ auto RelativeClearanceCondition::evaluate() -> Object
             // exclude entities included in TriggeringEntities
             auto is_target_candidate_scenario_object_in_triggering_entities =
               [&](const ScenarioObject & target_candidate) -> bool {
-              bool is_included = false;
-              triggering_entities.apply(
-                [target_candidate, &is_included](const auto & triggering_scenario_object) {
+              return std::any_of(
+                triggering_entities.entity_refs.begin(), triggering_entities.entity_refs.end(),
+                [&](const auto & triggering_scenario_object) {
                   assert(triggering_scenario_object.template is<ScenarioObject>());
-                  if (triggering_scenario_object.name() == target_candidate.name) {
-                    is_included = true;
-                  }
-                  return true;
+                  return triggering_scenario_object.name() == target_candidate.name;
                 });
-              return is_included;
             };
             if (is_target_candidate_scenario_object_in_triggering_entities(
                   target_candidate_scenario_object)) {
-- 
2.43.0


From a59f91dab0d5b6331425291e6da1ad92ef9d1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 25/92] fix: TimeToCollisionCondition treats a relative speed
 of -0 as no approach

---
 .../syntax/time_to_collision_condition.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
index 3dc68ba..61a5900 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
@@ -163,7 +163,7 @@ struct TimeToCollisionCondition : private Scope, private SimulatorCore::Conditio
       }
     };
 
-    return distance() / std::max(speed(), 0.0);
+    return distance() / std::abs(std::max(speed(), 0.0));
   }
 
   auto evaluate()
-- 
2.43.0


From f539cc27a15eb7aedd36d1c55cefafa797d81a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 26/92] fix: FollowTrajectoryAction gives every member of an
 entity selection its own start pose

---
 .../include/openscenario_interpreter/simulator_core.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
index bd7cdd7..e3464a0 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
@@ -501,8 +501,11 @@ public:
       traffic_simulator_msgs::msg::Vertex initial_vertex;
       initial_vertex.time = std::numeric_limits<double>::quiet_NaN();
       initial_vertex.position = core->getEntity(entity_ref).getMapPose();
-      parameter->shape.vertices.insert(parameter->shape.vertices.begin(), initial_vertex);
-      return core->getEntity(entity_ref).requestFollowTrajectory(parameter);
+      /// @note the parameter may be shared by several entities
+      const auto trajectory =
+        std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>(*parameter);
+      trajectory->shape.vertices.insert(trajectory->shape.vertices.begin(), initial_vertex);
+      return core->getEntity(entity_ref).requestFollowTrajectory(trajectory);
     }
 
     template <typename... Ts>
-- 
2.43.0


From 4eb132961ed56d583c143d62d25482989ef6a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 27/92] fix: PseudoTrafficSignalDetectorConfidenceSetAction
 accepts 64-bit lanelet ids

---
 .../src/syntax/custom_command_action.cpp                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp b/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
index c770467..fba1257 100644
--- a/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
@@ -115,7 +115,7 @@ struct ApplyPseudoTrafficSignalDetectorConfidenceSetAction
     static_assert(0 < Version and Version <= 1);
     if (parameters.size() == 2) {
       setConventionalTrafficLightConfidence(
-        std::stoi(parameters.at(0)), std::stod(parameters.at(1)));
+        boost::lexical_cast<std::int64_t>(parameters.at(0)), std::stod(parameters.at(1)));
     } else {
       throw Error(
         "An unexpected number of arguments were passed to "
-- 
2.43.0


From c6e256382602abbbaf32391b2521292c5e899e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 28/92] fix: SpeedAction notices every actor that reaches the
 speed, whatever their order

---
 .../src/syntax/speed_action.cpp                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp b/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
index 935d62e..b8bd1f5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
@@ -92,10 +92,12 @@ auto SpeedAction::accomplished() -> bool
   if (endsImmediately()) {
     return true;
   } else if (ends_on_reaching_the_speed()) {
-    return std::all_of(
-      std::begin(accomplishments), std::end(accomplishments), [&](auto && accomplishment) {
-        return accomplishment.second = accomplishment.second or check(accomplishment.first);
-      });
+    // Every actor is checked every time, so that none of them reaching the speed goes unnoticed.
+    return std::count_if(
+             std::begin(accomplishments), std::end(accomplishments), [&](auto && accomplishment) {
+               return not(
+                 accomplishment.second = accomplishment.second or check(accomplishment.first));
+             }) == 0;
   } else if (there_is_no_regular_ending()) {
     return false;  // no regular ending
   } else {
-- 
2.43.0


From 537dcd72be78fe1fbbfb6dfb6423395342948607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 29/92] fix: LaneChangeAction and FollowTrajectoryAction end
 when every member of every actor has finished

---
 .../src/syntax/follow_trajectory_action.cpp          | 12 +++++++-----
 .../src/syntax/lane_change_action.cpp                |  9 +++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 23bee1c..9215d75 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -51,21 +51,23 @@ auto FollowTrajectoryAction::accomplished() -> bool
     }
     return false;
   } else {
-    return std::all_of(
+    // Every actor is checked every time, so that none of them finishing goes unnoticed.
+    return std::count_if(
       std::begin(accomplishments), std::end(accomplishments), [this](auto && accomplishment) {
         auto is_running = [this](const auto & actor) {
           if (trajectory_ref.trajectory.as<Trajectory>().shape.is<Polyline>()) {
             auto evaluation = actor.apply([&](const auto & object) {
               return evaluateCurrentState(object) == "follow_polyline_trajectory";
             });
-            return not evaluation.size() or evaluation.min();
+            return evaluation.size() and evaluation.max();
           } else {
             return false;
           }
         };
-        return accomplishment.second or
-               (accomplishment.second = not is_running(accomplishment.first));
-      });
+        return not(
+          accomplishment.second =
+            accomplishment.second or not is_running(accomplishment.first));
+      }) == 0;
   }
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
index aa44293..0ba1e68 100644
--- a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
@@ -45,14 +45,15 @@ LaneChangeAction::LaneChangeAction(const pugi::xml_node & node, Scope & scope)
 
 auto LaneChangeAction::accomplished() -> bool
 {
-  return std::all_of(std::begin(accomplishments), std::end(accomplishments), [&](auto & each) {
+  // Every actor is checked every time, so that none of them finishing goes unnoticed.
+  return std::count_if(std::begin(accomplishments), std::end(accomplishments), [&](auto & each) {
     const auto is_lane_changing = [&](const auto & actor) {
       auto evaluation = actor.apply(
         [&](const auto & object) { return evaluateCurrentState(object) == "lane_change"; });
-      return not evaluation.size() or evaluation.min();
+      return evaluation.size() and evaluation.max();
     };
-    return each.second or (each.second = not is_lane_changing(each.first));
-  });
+    return not(each.second = each.second or not is_lane_changing(each.first));
+  }) == 0;
 }
 
 auto LaneChangeAction::endsImmediately() noexcept -> bool { return false; }
-- 
2.43.0


From c33357df006e43745952b12a304fdafbb6e9af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 30/92] fix: a new route is requested only after the arrival at
 the former goal has passed

---
 .../include/concealer/field_operator_application.hpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/external/concealer/include/concealer/field_operator_application.hpp b/external/concealer/include/concealer/field_operator_application.hpp
index b93b56e..1d6ea81 100644
--- a/external/concealer/include/concealer/field_operator_application.hpp
+++ b/external/concealer/include/concealer/field_operator_application.hpp
@@ -136,7 +136,11 @@ struct FieldOperatorApplication : public rclcpp::Node
     thunk();
 
     auto not_to_be = [&](auto current_state) {
-      return from_state.value <= current_state.value and current_state.value < to_state.value;
+      if (from_state.value < to_state.value) {
+        return from_state.value <= current_state.value and current_state.value < to_state.value;
+      } else {  // e.g. from arrived_goal to waiting_for_route
+        return current_state.value == from_state.value;
+      }
     };
 
     while (not finalized.load() and not_to_be(getLegacyAutowareState())) {
-- 
2.43.0


From ee37924b17b80d8219cdae0acff858f1fbd126ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 31/92] fix: AutowareUniverse rethrows the exception a
 publisher threw, not the pointer to it

---
 external/concealer/src/autoware_universe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/concealer/src/autoware_universe.cpp b/external/concealer/src/autoware_universe.cpp
index 46be450..146e294 100644
--- a/external/concealer/src/autoware_universe.cpp
+++ b/external/concealer/src/autoware_universe.cpp
@@ -185,7 +185,7 @@ AutowareUniverse::~AutowareUniverse()
 auto AutowareUniverse::rethrow() -> void
 {
   if (is_thrown.load()) {
-    throw thrown;
+    std::rethrow_exception(thrown);
   }
 }
 
-- 
2.43.0


From b3245877d265630676a66fc8c52b41ff6dd6168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 32/92] fix: keep V2I traffic lights in step when they are
 changed by relation ID

setV2IFeature stores the way IDs a relation refers to, but the synchronization
callback and isV2ITrafficLightEnabled looked the relation ID itself up, so a
conventional light changed by its relation ID was not mirrored to V2I.
---
 .../traffic_lights/traffic_lights.hpp         | 25 +++++++++++--------
 .../src/traffic_lights/traffic_lights.cpp     | 10 +++++++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 8d83327..fb024f6 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -235,17 +235,20 @@ public:
       [this, v2i = v2i_channel_.getGroundTruth()](
         lanelet::Id lanelet_id, const std::string & state,
         TrafficLightsBase::StateChangeType change_type) {
-        if (v2i_enabled_traffic_lights_.count(lanelet_id) > 0) {
-          switch (change_type) {
-            case TrafficLightsBase::StateChangeType::SET:
-              v2i->setTrafficLightsState(lanelet_id, state);
-              break;
-            case TrafficLightsBase::StateChangeType::CLEAR:
-              v2i->clearTrafficLightsState(lanelet_id);
-              break;
-            case TrafficLightsBase::StateChangeType::ADD:
-              v2i->addTrafficLightsState(lanelet_id, state);
-              break;
+        // lanelet_id may be a relation id, while v2i_enabled_traffic_lights_ holds way ids
+        for (const auto & way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+          if (v2i_enabled_traffic_lights_.count(way_id) > 0) {
+            switch (change_type) {
+              case TrafficLightsBase::StateChangeType::SET:
+                v2i->setTrafficLightsState(way_id, state);
+                break;
+              case TrafficLightsBase::StateChangeType::CLEAR:
+                v2i->clearTrafficLightsState(way_id);
+                break;
+              case TrafficLightsBase::StateChangeType::ADD:
+                v2i->addTrafficLightsState(way_id, state);
+                break;
+            }
           }
         }
       });
diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index edc1a5e..7acd3f2 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -61,7 +61,15 @@ auto TrafficLights::generateConventionalUpdateRequest() const
 
 auto TrafficLights::isV2ITrafficLightEnabled(const lanelet::Id lanelet_id) const -> bool
 {
-  return v2i_enabled_traffic_lights_.count(lanelet_id) > 0;
+  if (lanelet_wrapper::traffic_lights::isTrafficLightRegulatoryElement(lanelet_id)) {
+    // relation ID -> v2i_enabled_traffic_lights_ holds the way IDs it refers to
+    const auto way_ids = traffic_simulator::traffic_lights::wayIds(lanelet_id);
+    return std::all_of(way_ids.begin(), way_ids.end(), [this](const auto way_id) {
+      return v2i_enabled_traffic_lights_.count(way_id) > 0;
+    });
+  } else {
+    return v2i_enabled_traffic_lights_.count(lanelet_id) > 0;
+  }
 }
 
 auto V2ITrafficLights::addTrafficLightsStatePrediction(
-- 
2.43.0


From 24c44ff7b379f265f65f521f27d6c804a9b8c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 33/92] fix: let a detected state given by relation ID cover
 every traffic light of the relation

DetectedTrafficLights stored the state under the relation ID, which apply()
never finds among the way IDs of the request, so the ground truth was published
beside the detected state instead of being replaced by it.
---
 .../traffic_lights/traffic_lights.hpp               | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index fb024f6..08fbcb0 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -71,13 +71,20 @@ public:
 
   auto addState(const lanelet::Id lanelet_id, const std::string & state) -> void
   {
-    auto [iter, inserted] = detected_traffic_lights_.try_emplace(lanelet_id, lanelet_id);
-    iter->second.set(state);
+    // lanelet_id may be a relation id, while apply() looks lights up by way id
+    for (const auto & way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      auto [iter, inserted] = detected_traffic_lights_.try_emplace(way_id, way_id);
+      iter->second.set(state);
+    }
   }
 
   auto clearState(const lanelet::Id lanelet_id) -> bool
   {
-    return detected_traffic_lights_.erase(lanelet_id) > 0;
+    std::size_t erased = 0;
+    for (const auto & way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      erased += detected_traffic_lights_.erase(way_id);
+    }
+    return erased > 0;
   }
 
   auto empty() const -> bool { return detected_traffic_lights_.empty(); }
-- 
2.43.0


From 469fbf249c6a3b9699af3779d02f018464257b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 34/92] fix: do not truncate phase durations to integers when
 summing the cycle time

cycleTime() accumulated into an int, so controllers with equal cycle times
could be reported as different (1.5 + 1.5 sec and 3 sec), controllers with
different ones accepted, and a phase longer than the truncated cycle got no
V2I predictions.
---
 .../src/syntax/traffic_signal_controller.cpp                | 4 ++--
 .../openscenario_interpreter/src/syntax/traffic_signals.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..8085bb2 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,8 +100,8 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
-    [](const auto & sum, const auto & phase) { return sum + phase.duration; });
+    std::cbegin(phases), std::cend(phases), 0.0,
+    [](const double sum, const auto & phase) { return sum + phase.duration; });
 }
 
 auto TrafficSignalController::evaluate() -> Object
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
index 855b03d..ae024c0 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cmath>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
@@ -48,7 +49,10 @@ auto TrafficSignals::resolve_reference(Scope & scope) -> void
     if (not each->reference.empty()) {
       try {
         auto & reference = scope.ref<TrafficSignalController>(each->reference);
-        if (each->cycleTime() != reference.cycleTime()) {
+        // NOTE: Cycle times are sums of fractions, which may differ in rounding only.
+        if (constexpr double tolerance = 1e-6;
+            std::isinf(each->cycleTime()) != std::isinf(reference.cycleTime()) or
+            std::abs(each->cycleTime() - reference.cycleTime()) > tolerance) {
           THROW_SEMANTIC_ERROR(
             "The cycle time of ", each->name, "(", each->cycleTime(), " sec) and ", each->reference,
             "(", reference.cycleTime(), " sec) is different");
-- 
2.43.0


From 97b8e262353b030246fa47c16598d32f9b637701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 35/92] fix: do not read the phase of a TrafficSignalController
 that has not begun

currentPhaseName() dereferenced the end iterator of the phases when a
TrafficSignalControllerCondition was evaluated before the controller's first
phase (during the delay to its reference, or without any phase).
---
 .../src/syntax/traffic_signal_controller.cpp                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 8085bb2..0007fc5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,9 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  // No phase is current until the controller has begun (e.g. during the delay to its reference).
+  static const String none;
+  return current_phase != std::end(phases) ? (*current_phase).name : none;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From ec5c4d9ecc0fa9ebdaa3ee41cb3cd8bd6d2e1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 36/92] fix: begin a TrafficSignalController whose delay is not
 shorter than the cycle

Each time the reference began again it overwrote the time at which the delayed
controller should have begun, so a controller whose delay is as long as the
cycle time or longer never began.
---
 .../syntax/traffic_signal_controller.hpp          |  4 ++--
 .../src/syntax/traffic_signal_controller.cpp      | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
index c9ebc3a..ce9ac6c 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
@@ -21,8 +21,8 @@
 #include <openscenario_interpreter/syntax/double.hpp>
 #include <openscenario_interpreter/syntax/phase.hpp>
 #include <openscenario_interpreter/syntax/string.hpp>
-#include <optional>
 #include <pugixml.hpp>
+#include <queue>
 
 namespace openscenario_interpreter
 {
@@ -68,7 +68,7 @@ struct TrafficSignalController : private SimulatorCore::ConditionEvaluation,
 private:
   CircularIterator<std::list<Phase>> current_phase;
 
-  std::optional<double> change_to_begin_time;
+  std::queue<double> change_to_begin_times;
 
   double current_phase_started_at;
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 0007fc5..9777d67 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -27,7 +27,6 @@ TrafficSignalController::TrafficSignalController(const pugi::xml_node & node, Sc
   reference(readAttribute<String>("reference", node, scope, "")),
   phases(readElements<Phase, 0>("Phase", node, scope)),
   current_phase(std::begin(phases), std::end(phases), std::end(phases)),
-  change_to_begin_time(std::nullopt),
   current_phase_started_at(std::numeric_limits<double>::min())
 {
   if (delay < 0) {
@@ -119,19 +118,21 @@ auto TrafficSignalController::evaluate() -> Object
 
 auto TrafficSignalController::notifyBegin() -> void
 {
-  change_to_begin_time = evaluateSimulationTime() + delay;
+  change_to_begin_times.push(evaluateSimulationTime() + delay);
 }
 
 auto TrafficSignalController::shouldChangePhaseToBegin() -> bool
 {
   if (reference.empty()) {
     return current_phase == std::end(phases);  // if current_phase haven't been initialized
-  } else if (
-    change_to_begin_time.has_value() and change_to_begin_time.value() < evaluateSimulationTime()) {
-    change_to_begin_time = std::nullopt;
-    return true;
   } else {
-    return false;
+    auto should_change = false;
+    while (not change_to_begin_times.empty() and
+           change_to_begin_times.front() < evaluateSimulationTime()) {
+      change_to_begin_times.pop();
+      should_change = true;
+    }
+    return should_change;
   }
 }
 
-- 
2.43.0


From c404cda0fc3d54b69f77a15c095984c71d2278cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 37/92] fix: keep the predictions of other controllers when a
 controller changes phase

updatePredictions() cleared the V2I predictions of every traffic light, so with
several TrafficSignalControllers the lights of all but the one that changed
phase last were published without predictions.
---
 .../src/syntax/traffic_signal_controller.cpp               | 7 ++++++-
 .../traffic_simulator/traffic_lights/traffic_lights.hpp    | 2 ++
 .../src/traffic_lights/traffic_lights.cpp                  | 7 +++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 9777d67..5bc056d 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -139,7 +139,12 @@ auto TrafficSignalController::shouldChangePhaseToBegin() -> bool
 auto TrafficSignalController::updatePredictions() -> void
 {
   if (current_phase != std::end(phases)) {
-    clearV2ITrafficLightsStatePredictions();
+    // Predictions of the traffic lights of the other controllers are still valid.
+    for (const auto & phase : phases) {
+      for (const auto & traffic_signal_state : phase.traffic_signal_states) {
+        clearV2ITrafficLightsStatePredictions(traffic_signal_state.id());
+      }
+    }
 
     /*
       NOTE:
diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 08fbcb0..634b2fb 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -138,6 +138,8 @@ public:
 
   auto clearTrafficLightsStatePredictions() -> void;
 
+  auto clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void;
+
 private:
   auto update() const -> void override
   {
diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index 7acd3f2..8f60a05 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -112,4 +112,11 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
 }
 
 auto V2ITrafficLights::clearTrafficLightsStatePredictions() -> void { predictions_.clear(); }
+
+auto V2ITrafficLights::clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void
+{
+  for (const auto & way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+    predictions_.erase(way_id);
+  }
+}
 }  // namespace traffic_simulator
-- 
2.43.0


From 66c426310469856e498263481b07aa074e7fca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 38/92] fix: do not predict V2I traffic lights from the
 detected states of conventional ones

---
 .../src/syntax/traffic_signal_controller.cpp                 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 5bc056d..2b535da 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -173,7 +173,10 @@ auto TrafficSignalController::updatePredictions() -> void
       }
 
       for (const auto & signal : phase.traffic_signal_states) {
-        if (signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional) {
+        // What is detected in place of a conventional traffic light says nothing about its future.
+        if (
+          signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional and
+          not signal.isDetected()) {
           const auto & id = signal.id();
           if (v2i_ids.count(id) == 0 && isV2ITrafficLightEnabled(id)) {
             states[id].push_back(signal.state);
-- 
2.43.0


From 51809e820e79c32b0e5ff956b420fbcb2e4e0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 39/92] fix: let a phase of a TrafficSignalController chosen in
 Init end

---
 .../syntax/traffic_signal_controller.hpp            |  2 ++
 .../src/syntax/traffic_signal_controller.cpp        | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
index ce9ac6c..115a1ee 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller.hpp
@@ -97,6 +97,8 @@ public:
 
   auto currentPhaseSince() const -> double;
 
+  auto currentTime() const -> double;
+
   auto cycleTime() const -> double;
 
   auto evaluate() -> Object;
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 2b535da..d82b3af 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -72,7 +72,7 @@ auto TrafficSignalController::changePhaseTo(std::list<Phase>::iterator next) ->
     (*current_phase).clearStates();
   }
 
-  current_phase_started_at = evaluateSimulationTime();
+  current_phase_started_at = currentTime();
   current_phase = next;
 
   updatePredictions();
@@ -98,6 +98,13 @@ auto TrafficSignalController::currentPhaseSince() const -> double
   return current_phase_started_at;
 }
 
+auto TrafficSignalController::currentTime() const -> double
+{
+  // The simulation time is NaN until the scenario, whose time starts from zero, has been started.
+  const auto time = evaluateSimulationTime();
+  return std::isnan(time) ? 0.0 : time;
+}
+
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
@@ -118,7 +125,7 @@ auto TrafficSignalController::evaluate() -> Object
 
 auto TrafficSignalController::notifyBegin() -> void
 {
-  change_to_begin_times.push(evaluateSimulationTime() + delay);
+  change_to_begin_times.push(currentTime() + delay);
 }
 
 auto TrafficSignalController::shouldChangePhaseToBegin() -> bool
@@ -155,7 +162,7 @@ auto TrafficSignalController::updatePredictions() -> void
     constexpr std::size_t output_prediction_size = 6;
 
     double accumulated_time =
-      (*current_phase).duration - (evaluateSimulationTime() - current_phase_started_at);
+      (*current_phase).duration - (currentTime() - current_phase_started_at);
 
     auto phase_iterator = current_phase;
     std::size_t extracted_phases_number = 0;
-- 
2.43.0


From 770e11f3db99ddddff8447cacc65cc6a93afc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 40/92] fix: start each scenario without the sensors, lights
 and ego of the last one in the sensor simulator

---
 .../simple_sensor_simulator/src/simple_sensor_simulator.cpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
index 722c6aa..bba9d74 100644
--- a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
+++ b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
@@ -81,6 +81,9 @@ auto ScenarioSimulator::initialize(const simulation_api_schema::InitializeReques
   pedestrians_.clear();
   misc_objects_.clear();
   entity_status_.clear();
+  sensor_sim_ = SensorSimulation();
+  traffic_signals_states_.Clear();
+  ego_entity_simulation_.reset();
   return res;
 }
 
-- 
2.43.0


From 90dd0da39498ba619f65455e86419eccc7ec2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 41/92] fix: refuse frames before the sensor simulator is
 initialized

---
 .../include/simple_sensor_simulator/simple_sensor_simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
index 44eb4b8..25b22d2 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
@@ -148,7 +148,7 @@ private:
   double current_simulation_time_;
   double current_scenario_time_;
   rclcpp::Time current_ros_time_;
-  bool initialized_;
+  bool initialized_ = false;
   std::map<std::string, simulation_api_schema::EntityStatus> entity_status_;
   simulation_api_schema::UpdateTrafficLightsRequest traffic_signals_states_;
   traffic_simulator_msgs::BoundingBox getBoundingBox(const std::string & name);
-- 
2.43.0


From 685f0d77d25c6cd52577a04be76934eeb078cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 42/92] fix: separate the autocorrelation coefficient's
 parameter names from their base path

---
 .../detection_sensor/detection_sensor.cpp                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 03b2036..5068f93 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -338,7 +338,7 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
       detected_entities.erase(
         std::remove_if(
           detected_entities.begin(), detected_entities.end(),
-          [this](auto &&) {
+          [&](auto &&) {
             return std::uniform_real_distribution()(random_engine_) < missing_probability;
           }),
         detected_entities.end());
@@ -387,11 +387,11 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
     auto autocorrelation_coefficient =
       [&](const std::string & parameter_base_path, const double interval) {
         const auto amplitude = common::getParameter<double>(
-          parameter_base_path + "autocorrelation_coefficient.amplitude");
+          parameter_base_path + ".autocorrelation_coefficient.amplitude");
         const auto decay =
-          common::getParameter<double>(parameter_base_path + "autocorrelation_coefficient.decay");
+          common::getParameter<double>(parameter_base_path + ".autocorrelation_coefficient.decay");
         const auto offset =
-          common::getParameter<double>(parameter_base_path + "autocorrelation_coefficient.offset");
+          common::getParameter<double>(parameter_base_path + ".autocorrelation_coefficient.offset");
         return std::clamp(amplitude * std::exp(-decay * interval) + offset, 0.0, 1.0);
       };
 
-- 
2.43.0


From 36ccc6069eafd428203d507019e7ada427f18526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 43/92] fix: do not keep the first detection sensor's noise
 configuration for the later ones

---
 .../sensor_simulation/detection_sensor/detection_sensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 5068f93..c9beb3f 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -310,17 +310,17 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
        simulator publishes, copy the following function and implement new one.
     */
     auto noise_v1 = [&](auto detected_entities, [[maybe_unused]] auto simulation_time) {
-      static const auto override_legacy_configuration = common::getParameter<bool>(
+      const auto override_legacy_configuration = common::getParameter<bool>(
         detected_objects_publisher->get_topic_name() +
         std::string(".override_legacy_configuration"));
 
-      static const auto standard_deviation =
+      const auto standard_deviation =
         override_legacy_configuration ? common::getParameter<double>(
                                           detected_objects_publisher->get_topic_name() +
                                           std::string(".noise.v1.position.standard_deviation"))
                                       : configuration_.pos_noise_stddev();
 
-      static const auto missing_probability = override_legacy_configuration
+      const auto missing_probability = override_legacy_configuration
                                                 ? common::getParameter<double>(
                                                     detected_objects_publisher->get_topic_name() +
                                                     std::string(".noise.v1.missing_probability"))
-- 
2.43.0


From 2b43fbb21f36f4e8123a54aadd360918512df247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 44/92] fix: detect an entity also in the first update that
 knows it

---
 .../detection_sensor/detection_sensor.cpp          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index c9beb3f..0d5c178 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -531,12 +531,13 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
     auto noise_v3 = [&](const auto & detected_entities, auto simulation_time) {
       auto noised_detected_entities = std::decay_t<decltype(detected_entities)>();
       for (const auto & entity : detected_entities) {
-        if (auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
-            success) {
+        auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
+        if (success) {
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v3", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (not noise_output->second.config_name.empty()) {
           auto vanilla_entity = std::vector<traffic_simulator_msgs::EntityStatus>{entity};
           const std::string config_namespace = "v3." + noise_output->second.config_name;
           auto noised_entity = noise_v2(vanilla_entity, simulation_time, config_namespace);
@@ -671,12 +672,13 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
       };
       auto noised_detected_entities = std::decay_t<decltype(detected_entities)>();
       for (const auto & entity : detected_entities) {
-        if (auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
-            success) {
+        auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
+        if (success) {
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v4", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (not noise_output->second.config_name.empty()) {
           const std::string parameter_base_path =
             std::string(detected_objects_publisher->get_topic_name()) + ".noise.v4." +
             noise_output->second.config_name + ".";
-- 
2.43.0


From c7e5ad3eb28c83284b1225a5630bf70ccd157f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 45/92] fix: seed version 4 of the detection sensor's noise by
 its own parameter

---
 .../sensor_simulation/detection_sensor/detection_sensor.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
index 8548222..5b98fd5 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
@@ -190,6 +190,8 @@ public:
               case 2:
                 [[fallthrough]];
               case 3:
+                [[fallthrough]];
+              case 4:
                 return common::getParameter<int>(
                   detected_objects_publisher->get_topic_name() + std::string(".seed"));
             }
-- 
2.43.0


From 15618bae4cb22524a65a8d4c21a45b75c84661ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 46/92] fix: do not square the lidar noise's ellipse radii
 twice

---
 .../src/sensor_simulation/lidar/lidar_noise_model_v1.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
index 255db43..ab86023 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
@@ -56,8 +56,8 @@ LidarNoiseModelV1::Config::Config(const std::string & topic_name, const std::str
     bins.reserve(ellipse_y_radii.size());
     for (size_t i = 0; i < ellipse_y_radii.size(); ++i) {
       bins.emplace_back(
-        ellipse_y_radii[i] * ellipse_y_radii[i], radial_mean[i], radial_stddev[i],
-        tangential_mean[i], tangential_stddev[i], tpr_values[i]);
+        ellipse_y_radii[i], radial_mean[i], radial_stddev[i], tangential_mean[i],
+        tangential_stddev[i], tpr_values[i]);
     }
     return bins;
   }())
-- 
2.43.0


From 9dd2c6e38b13dd4de349d1a9c0db7e489d478718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 47/92] fix: refuse lidar noise tables of different sizes
 instead of reading past their end

---
 .../sensor_simulation/lidar/lidar_noise_model_v1.cpp  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
index ab86023..5ad6589 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
@@ -14,6 +14,8 @@
 
 #include <algorithm>
 #include <cmath>
+#include <iomanip>
+#include <scenario_simulator_exception/exception.hpp>
 #include <simple_sensor_simulator/sensor_simulation/lidar/lidar_noise_model_v1.hpp>
 #include <simple_sensor_simulator/sensor_simulation/noise_parameter_selector.hpp>
 #include <string>
@@ -52,6 +54,15 @@ LidarNoiseModelV1::Config::Config(const std::string & topic_name, const std::str
     const auto tpr_values =
       common::getParameter<std::vector<double>>(base_path + "true_positive.rate.values");
 
+    if (const auto size = ellipse_y_radii.size();
+        radial_mean.size() != size or radial_stddev.size() != size or
+        tangential_mean.size() != size or tangential_stddev.size() != size or
+        tpr_values.size() != size) {
+      throw common::Error(
+        "Array size mismatch: every array of ", std::quoted(topic_name + ".noise.v1." + config_name),
+        " must have the same size as its ellipse_y_radii (", size, ").");
+    }
+
     std::vector<DistanceBin> bins;
     bins.reserve(ellipse_y_radii.size());
     for (size_t i = 0; i < ellipse_y_radii.size(); ++i) {
-- 
2.43.0


From 3a63038b5158a5575bf2f3a864c685630d630d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 48/92] fix: centre the occupancy grid's origin by its own
 width and height

---
 .../occupancy_grid/occupancy_grid_sensor.cpp                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
index c48ecc4..1dacd42 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
@@ -149,8 +149,8 @@ auto OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>::getOccupancyGrid(
   res.info.map_load_time = stamp;
   res.info.resolution = configuration_.resolution();
   res.info.origin = ego_pose_north_up;
-  res.info.origin.position.x -= 0.5 * configuration_.height() * configuration_.resolution();
-  res.info.origin.position.y -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.x -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.y -= 0.5 * configuration_.height() * configuration_.resolution();
   return res;
 }
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From e20a4b8fbee49a1a35435720b94d0361e95a7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 49/92] fix: close the ring that clips obstacles to the
 occupancy grid

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 53e8456..df4d48f 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -84,6 +84,7 @@ auto OccupancyGridBuilder::makeOccupiedArea(const PrimitiveType & primitive) con
     {+real_width, -real_height},  // bottom right
     {-real_width, -real_height},  // bottom left
     {-real_width, +real_height},  // top left
+    {+real_width, +real_height},  // top right (a ring is closed)
   };
 
   // Clip a polygon to fit into grid area
-- 
2.43.0


From 409a388501ee95f8c7cdf33e530535e396f01687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 50/92] fix: notice that an obstacle covers the occupancy
 grid's origin

---
 .../occupancy_grid/occupancy_grid_builder.cpp                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index df4d48f..67bbc5f 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -123,9 +123,10 @@ auto OccupancyGridBuilder::makeInvisibleArea(const PolygonType & occupied_polygo
     // Treat the entire occupancy grid area as invisible if `occupied_polygon`
     // covers the origin of the grid
     bool overlap_origin = true;
-    for (size_t i = 0; i < occupied_polygon.size(); ++i) {
+    // the last point of `occupied_polygon` is the first one
+    for (size_t i = 0; i + 1 < occupied_polygon.size(); ++i) {
       const auto & p = occupied_polygon[i];
-      const auto & q = occupied_polygon[(i + 1) % occupied_polygon.size()];
+      const auto & q = occupied_polygon[i + 1];
       overlap_origin &= p.x * q.y - q.x * p.y < 0;
     }
     if (overlap_origin) return corners;
-- 
2.43.0


From 01c478a1e5dd691455c0dbfe8b41f56567b5f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 51/92] fix: do not hang when an obstacle's corner lies on the
 occupancy grid's origin

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 67bbc5f..3a7ae1d 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -127,7 +127,7 @@ auto OccupancyGridBuilder::makeInvisibleArea(const PolygonType & occupied_polygo
     for (size_t i = 0; i + 1 < occupied_polygon.size(); ++i) {
       const auto & p = occupied_polygon[i];
       const auto & q = occupied_polygon[i + 1];
-      overlap_origin &= p.x * q.y - q.x * p.y < 0;
+      overlap_origin &= p.x * q.y - q.x * p.y <= 0;
     }
     if (overlap_origin) return corners;
   }
-- 
2.43.0


From c1dc60e17c292a04c8032baa1418ca451d1f3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 52/92] fix: visit the last cell of a line through the
 occupancy grid

---
 .../sensor_simulation/occupancy_grid/grid_traversal.hpp      | 3 ++-
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
index eb94085..07fa4f0 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
@@ -40,7 +40,8 @@ class GridTraversal
   private:
     const GridTraversal * parent_;
 
-    double tx_, ty_;
+    // when the line enters the current cell, and when it meets the next vertical and horizontal border
+    double t_ = 0.0, tx_, ty_;
     int32_t x_, y_;
   };
 
diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 782361d..c305af6 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
+#include <cmath>
 #include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>
 
 namespace simple_sensor_simulator
@@ -52,6 +54,7 @@ auto GridTraversal::Iterator::operator*() -> Index { return {x_, y_}; }
 
 auto GridTraversal::Iterator::operator++() -> Iterator &
 {
+  t_ = std::min(tx_, ty_);
   if (tx_ < ty_) {
     tx_ += parent_->tdx_;
     x_ += parent_->step_x_;
@@ -64,7 +67,7 @@ auto GridTraversal::Iterator::operator++() -> Iterator &
 
 auto GridTraversal::Iterator::operator!=(const Sentinel &) -> bool
 {
-  return tx_ <= 1.0 || ty_ <= 1.0;
+  return t_ < 1.0;
 }
 
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 46a8807b6d54fc7451c3db2dc44486525672951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 53/92] fix: slerp takes the shorter way and is defined for
 equal orientations

---
 .../geometry/include/geometry/quaternion/slerp.hpp     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/include/geometry/quaternion/slerp.hpp b/common/math/geometry/include/geometry/quaternion/slerp.hpp
index 1207de2..ce19f08 100644
--- a/common/math/geometry/include/geometry/quaternion/slerp.hpp
+++ b/common/math/geometry/include/geometry/quaternion/slerp.hpp
@@ -30,9 +30,17 @@ template <
 auto slerp(T quat1, U quat2, V t)
 {
   double qr = quat1.w * quat2.w + quat1.x * quat2.x + quat1.y * quat2.y + quat1.z * quat2.z;
+  if (qr < 0.0) {
+    // A quaternion and its negative are the same orientation. Take the one on the shorter way.
+    quat2.x *= -1;
+    quat2.y *= -1;
+    quat2.z *= -1;
+    quat2.w *= -1;
+    qr = -qr;
+  }
   double ss = 1.0 - qr * qr;
   constexpr double e = std::numeric_limits<double>::epsilon();
-  if (std::fabs(ss) <= e) {
+  if (ss <= e) {
     return geometry_msgs::build<geometry_msgs::msg::Quaternion>()
       .x(quat1.x)
       .y(quat1.y)
-- 
2.43.0


From faacf35079f5084287a9d6be068da8e5f4478143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 54/92] fix: the angle between parallel vectors does not raise

---
 .../geometry/include/geometry/vector3/internal_angle.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/include/geometry/vector3/internal_angle.hpp b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
index 30168a2..e736ddd 100644
--- a/common/math/geometry/include/geometry/vector3/internal_angle.hpp
+++ b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
@@ -15,9 +15,12 @@
 #ifndef GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 #define GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <geometry/vector3/inner_product.hpp>
 #include <geometry/vector3/is_like_vector3.hpp>
 #include <geometry/vector3/norm.hpp>
+#include <limits>
 #include <scenario_simulator_exception/exception.hpp>
 
 namespace math
@@ -31,8 +34,10 @@ template <
 auto getInternalAngle(const T & v0, const U & v1)
 {
   const auto val = innerProduct(v0, v1) / (norm(v0) * norm(v1));
-  if (-1 <= val && val <= 1) {
-    return std::acos(val);
+  // The value of parallel vectors can be out of [-1, 1] by a rounding error.
+  if (constexpr auto tolerance = 8 * std::numeric_limits<double>::epsilon();
+      -1 - tolerance <= val && val <= 1 + tolerance) {
+    return std::acos(std::clamp(static_cast<double>(val), -1.0, 1.0));
   }
   THROW_SIMULATION_ERROR(
     "value of v0*v1/(size(v0)*size(v1)) in vector v0 : ", v0.x, ",", v0.y, ",", v0.z,
-- 
2.43.0


From 33951b75d908434eef3f2480540ca356dbfb2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 55/92] fix: getClosestPoses keeps the points in one order

---
 common/math/geometry/src/bounding_box.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/common/math/geometry/src/bounding_box.cpp b/common/math/geometry/src/bounding_box.cpp
index edc822c..dd8b76d 100644
--- a/common/math/geometry/src/bounding_box.cpp
+++ b/common/math/geometry/src/bounding_box.cpp
@@ -67,31 +67,36 @@ std::optional<std::pair<geometry_msgs::msg::Pose, geometry_msgs::msg::Pose>> get
     auto point1 = boost_point();
     auto min_distance = boost::numeric::bounds<double>::highest();
 
-    auto findNearestPointToSegment = [&](const auto & segment, const auto & points) {
+    auto findNearestPointToSegment = [&](
+                                       const auto & segment, const auto & points, auto & vertex,
+                                       auto & projection) {
       for (auto && point : points) {
         auto nearest_point_from_segment =
           pointToSegmentProjection(point, *segment.first, *segment.second);
         auto distance = boost::geometry::distance(point, nearest_point_from_segment);
         if (distance < min_distance) {
           min_distance = distance;
-          point0 = point;
-          point1 = nearest_point_from_segment;
+          vertex = point;
+          projection = nearest_point_from_segment;
         }
       }
     };
 
-    auto findNearestPointInPolygon = [&](const auto & poly0, const auto & poly1) {
+    auto findNearestPointInPolygon = [&](
+                                       const auto & poly0, const auto & poly1, auto & vertex,
+                                       auto & projection) {
       auto segments = boost::make_iterator_range(
         boost::geometry::segments_begin(poly0), boost::geometry::segments_end(poly0));
       auto points = boost::geometry::exterior_ring(poly1);
 
       for (auto && segment : segments) {
-        findNearestPointToSegment(segment, points);
+        findNearestPointToSegment(segment, points, vertex, projection);
       }
     };
 
-    findNearestPointInPolygon(poly0, poly1);
-    findNearestPointInPolygon(poly1, poly0);
+    /// @note point0 is always on poly1 and point1 is always on poly0
+    findNearestPointInPolygon(poly0, poly1, point0, point1);
+    findNearestPointInPolygon(poly1, poly0, point1, point0);
 
     return std::make_pair(toPose(point0), toPose(point1));
   }
-- 
2.43.0


From a3fa92500c48190591b64d81c3c345fcd168983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 56/92] fix: points computed to lie on a line segment are found
 on it

---
 .../geometry/src/polygon/line_segment.cpp     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..f955120 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <cmath>
 #include <geometry/intersection/intersection.hpp>
 #include <geometry/polygon/line_segment.hpp>
@@ -124,10 +125,18 @@ auto LineSegment::getPose(const double s, const bool denormalize_s, const bool f
  */
 auto LineSegment::isIntersect2D(const geometry_msgs::msg::Point & point) const -> bool
 {
-  if (isInBounds2D(point)) {
+  /// @note A point computed to lie on the line segment is off by the rounding error of its coordinates.
+  const double tolerance = 4.0 * std::numeric_limits<double>::epsilon() *
+                           std::max(
+                             {1.0, std::abs(start_point.x), std::abs(start_point.y),
+                              std::abs(end_point.x), std::abs(end_point.y)});
+  if (
+    point.x >= std::min(start_point.x, end_point.x) - tolerance &&
+    point.x <= std::max(start_point.x, end_point.x) + tolerance &&
+    point.y >= std::min(start_point.y, end_point.y) - tolerance &&
+    point.y <= std::max(start_point.y, end_point.y) + tolerance) {
     const double cross_product =
       (point.y - start_point.y) * vector_2d.x - (point.x - start_point.x) * vector_2d.y;
-    constexpr double tolerance = std::numeric_limits<double>::epsilon();
     return std::abs(cross_product) <= length_2d * tolerance;
   } else {
     return false;
@@ -174,8 +183,8 @@ auto LineSegment::get2DIntersectionSValue(
   /// After finding the intersection, we calculate its position using a proportion.
   /// Finally, we multiply this proportion by the actual 3D length to obtain the total SValue.
   if (isIntersect2D(point)) {
-    const double proportion_2d =
-      std::hypot(point.x - start_point.x, point.y - start_point.y) / length_2d;
+    const double proportion_2d = std::min(
+      std::hypot(point.x - start_point.x, point.y - start_point.y) / length_2d, 1.0);
     return denormalize_s ? std::make_optional(proportion_2d * length)
                          : std::make_optional(proportion_2d);
   } else {
@@ -193,7 +202,12 @@ auto LineSegment::get2DIntersectionSValue(const LineSegment & line, const bool d
   -> std::optional<double>
 {
   if (const auto point = getIntersection2D(line); point.has_value()) {
-    return get2DIntersectionSValue(point.value(), denormalize_s);
+    /// @note The point is the intersection of the line segments, so it is on this line segment.
+    const double proportion_2d = std::clamp(
+      ((point->x - start_point.x) * vector_2d.x + (point->y - start_point.y) * vector_2d.y) /
+        (length_2d * length_2d),
+      0.0, 1.0);
+    return denormalize_s ? proportion_2d * length : proportion_2d;
   } else {
     return std::nullopt;
   }
-- 
2.43.0


From e537f8336c04dec67def4ec8547dac4adb092ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 57/92] fix: the slope of a line segment towards negative x is
 defined

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index f955120..dee65f9 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -239,7 +239,7 @@ auto LineSegment::getNormalVector() const -> geometry_msgs::msg::Vector3
 
 auto LineSegment::get2DVectorSlope() const -> double
 {
-  if (vector_2d.x <= std::numeric_limits<double>::epsilon()) {
+  if (std::abs(vector_2d.x) <= std::numeric_limits<double>::epsilon()) {
     THROW_SIMULATION_ERROR("Slope of a vertical line is undefined");
   } else {
     return vector_2d.y / vector_2d.x;
-- 
2.43.0


From 6a9a6de7f35ddefd3c0ee95b49f390dc8f615d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 58/92] fix: relativePointPosition2D gives the documented side

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index dee65f9..4268a09 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -376,7 +376,7 @@ auto LineSegment::relativePointPosition2D(const geometry_msgs::msg::Point & poin
 {
   constexpr double tolerance = std::numeric_limits<double>::epsilon();
   const double determinant =
-    vector_2d.y * (point.x - end_point.x) - vector_2d.x * (point.y - end_point.y);
+    vector_2d.x * (point.y - end_point.y) - vector_2d.y * (point.x - end_point.x);
   return static_cast<int>(determinant > tolerance) - static_cast<int>(determinant < -tolerance);
 }
 
-- 
2.43.0


From f4ae797c846c40976a535967da50e287415a73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 59/92] fix: transformPoint with a sensor pose rotates the
 translation as well

---
 common/math/geometry/src/transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/transform.cpp b/common/math/geometry/src/transform.cpp
index d730bf4..31adc7b 100644
--- a/common/math/geometry/src/transform.cpp
+++ b/common/math/geometry/src/transform.cpp
@@ -85,8 +85,7 @@ const geometry_msgs::msg::Point transformPoint(
   const geometry_msgs::msg::Pose & pose, const geometry_msgs::msg::Pose & sensor_pose,
   const geometry_msgs::msg::Point & point)
 {
-  auto mat = math::geometry::getRotationMatrix(
-    math::geometry::getRotation(sensor_pose.orientation, pose.orientation));
+  auto mat = math::geometry::getRotationMatrix(pose.orientation);
   Eigen::VectorXd v(3);
   v(0) = point.x;
   v(1) = point.y;
@@ -95,6 +94,7 @@ const geometry_msgs::msg::Point transformPoint(
   v(0) = v(0) + pose.position.x - sensor_pose.position.x;
   v(1) = v(1) + pose.position.y - sensor_pose.position.y;
   v(2) = v(2) + pose.position.z - sensor_pose.position.z;
+  v = math::geometry::getRotationMatrix(sensor_pose.orientation).transpose() * v;
   geometry_msgs::msg::Point ret;
   ret.x = v(0);
   ret.y = v(1);
-- 
2.43.0


From 5aabe1571bf50ce17cf4b79ebf7715bc27d46f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 60/92] fix: the cubic solver finds a solution of multiplicity
 three

---
 common/math/geometry/src/solver/polynomial_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..90383d3 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,7 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    if (const double q3 = q * q * q; q > 0 && r * r <= q3 * (1 + tolerance)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From b94cfa98d23dff9c2e041145cba9fa75b6d0c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 61/92] fix: the cubic solver stays accurate for small leading
 coefficients

---
 .../geometry/src/solver/polynomial_solver.cpp | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 90383d3..e56a235 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -129,8 +129,39 @@ auto PolynomialSolver::solveCubicEquation(
       /// @note Function that takes a std::vector of complex numbers and selects only real numbers from it and returns them
 
       /// @note Finds the complex solution of the monic cubic equation and returns only those that are real numbers.
-      return get_real_values(
+      auto real_values = get_real_values(
         solveMonicCubicEquationWithComplex(coef_b / coef_a, coef_c / coef_a, coef_d / coef_a));
+
+      /**
+       * @note The closed form loses accuracy when a is small compared to the other coefficients.
+       * So refine the values by Newton's method and remove the values which do not satisfy the equation.
+       */
+      for (auto & value : real_values) {
+        for (int i = 0; i < 10; ++i) {
+          const double refined =
+            value - cubic(coef_a, coef_b, coef_c, coef_d, value) /
+                      quadratic(3 * coef_a, 2 * coef_b, coef_c, value);
+          if (
+            std::abs(cubic(coef_a, coef_b, coef_c, coef_d, refined)) <
+            std::abs(cubic(coef_a, coef_b, coef_c, coef_d, value))) {
+            value = refined;
+          } else {
+            break;
+          }
+        }
+      }
+      real_values.erase(
+        std::remove_if(
+          real_values.begin(), real_values.end(),
+          [&](const double value) {
+            return not(
+              std::abs(cubic(coef_a, coef_b, coef_c, coef_d, value)) <=
+              tolerance * cubic(
+                            std::abs(coef_a), std::abs(coef_b), std::abs(coef_c), std::abs(coef_d),
+                            std::max(1.0, std::abs(value))));
+          }),
+        real_values.end());
+      return real_values;
     };
 
   /// @note Fallback to quadratic equation solver if a = 0
-- 
2.43.0


From 71a65aa4a5ee38ad24568e1b6fcf14a060fa1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 62/92] fix: the quadratic solver separates the solutions of
 small equations

---
 common/math/geometry/src/solver/polynomial_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index e56a235..8331d05 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -78,8 +78,9 @@ auto PolynomialSolver::solveQuadraticEquation(
 {
   const auto solve_without_limit =
     [this](const double coef_a, const double coef_b, const double coef_c) -> std::vector<double> {
+    /// @note The rounding error of the discriminant depends on the magnitude of its terms.
     if (const double discriminant = coef_b * coef_b - 4 * coef_a * coef_c;
-        isApproximatelyEqualTo(discriminant, 0)) {
+        std::abs(discriminant) <= tolerance * coef_b * coef_b) {
       return {-coef_b / (2 * coef_a)};
     } else if (discriminant < 0) {
       return {};
-- 
2.43.0


From 6824f16599bf2811eb4d517fe0af64df1ff14792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 63/92] fix: a curve does not cross an edge beyond its ends

---
 .../geometry/src/spline/hermite_curve.cpp     | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/common/math/geometry/src/spline/hermite_curve.cpp b/common/math/geometry/src/spline/hermite_curve.cpp
index 06ff944..1c5d95e 100644
--- a/common/math/geometry/src/spline/hermite_curve.cpp
+++ b/common/math/geometry/src/spline/hermite_curve.cpp
@@ -158,23 +158,17 @@ std::set<double> HermiteCurve::getCollisionPointsIn2D(
   };
 
   for (const auto solution : get_solutions()) {
-    constexpr double epsilon = std::numeric_limits<double>::epsilon();
-    double x = solver_.cubic(ax_, bx_, cx_, dx_, solution);
-    double tx = (x - point0.x) / (point1.x - point0.x);
-    double y = solver_.cubic(ay_, by_, cy_, dy_, solution);
-    double ty = (y - point0.y) / (point1.y - point0.y);
-    if (std::abs(tx - ty) > epsilon || std::isnan(tx) || std::isnan(ty)) {
-      /**
-       * @note If the curve and the line segment to be intersected are parallel to either of the x/y axes, one of the two parameters, 
-       * tx, ty, will be in the range [0, 1] while the other will be out of that range because of division by zero.
-       */
-      if ((0 <= tx && tx <= 1) || (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
-    } else {
-      if ((0 <= tx && tx <= 1) && (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
+    /// @note Same as the tolerance of the PolynomialSolver.
+    constexpr double tolerance = 1e-7;
+    const double x = solver_.cubic(ax_, bx_, cx_, dx_, solution);
+    const double y = solver_.cubic(ay_, by_, cy_, dy_, solution);
+    /**
+     * @note The solution is on the line through point0 and point1.
+     * It is on the line segment only if its position along the line is in the range [0, 1].
+     */
+    const double t = ((x - fx) * ex + (y - fy) * ey) / (ex * ex + ey * ey);
+    if (-tolerance <= t && t <= 1 + tolerance) {
+      s_values.insert(denormalize(solution));
     }
   }
   return s_values;
-- 
2.43.0


From 382f024db0a766f978de5766dcfe6c3f5e145de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 64/92] fix: the outline is closed for a spline of two points
 as well

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index 5006b35..e573c59 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -396,7 +396,8 @@ auto CatmullRomSpline::getCollisionPointsIn2D(
   /// @note If the spline has two control points. (Same as single line segment.)
   const auto get_collision_point_2d_with_line = [this](const auto & local_polygon) {
     std::set<double> s_value_candidates;
-    for (const auto & line : getLineSegments(local_polygon)) {
+    /// @note The local_polygon is assumed to be closed
+    for (const auto & line : getLineSegments(local_polygon, true)) {
       if (static_cast<int>(line_segments_.size()) != 1) {
         THROW_SIMULATION_ERROR(
           "Number of the line segments are invalid : ", static_cast<int>(line_segments_.size()),
@@ -414,7 +415,7 @@ auto CatmullRomSpline::getCollisionPointsIn2D(
   /// @note If the spline has one control point. (Same as point.)
   const auto get_collision_point_2d_with_point = [this](const auto & local_polygon) {
     std::set<double> s_value_candidates;
-    for (const auto & line : getLineSegments(local_polygon)) {
+    for (const auto & line : getLineSegments(local_polygon, true)) {
       if (line.isIntersect2D(control_points[0])) {
         s_value_candidates.insert(0.0);
       }
-- 
2.43.0


From d69ee2fb454da89ca6dd922e6fd857489e3d4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 65/92] fix: a spline of two points finds the crossing with an
 edge

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index e573c59..caeab15 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -466,6 +466,11 @@ auto CatmullRomSpline::getCollisionPointIn2D(
   const geometry_msgs::msg::Point & point0, const geometry_msgs::msg::Point & point1,
   const bool search_backward) const -> std::optional<double>
 {
+  /// @note In this case, spline is interpreted as point or line segment.
+  if (curves_.empty()) {
+    return getCollisionPointIn2D(
+      std::vector<geometry_msgs::msg::Point>{point0, point1}, search_backward);
+  }
   std::size_t n = curves_.size();
   if (search_backward) {
     for (std::size_t i = 0; i < n; i++) {
-- 
2.43.0


From 8cd1a6d7005d514d9cc8fb1b8b556a700e154837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 66/92] fix: the altitude range of a part without control
 points has no lower bound

---
 common/math/geometry/src/spline/catmull_rom_subspline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/spline/catmull_rom_subspline.cpp b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
index fcb412b..27ee0dd 100644
--- a/common/math/geometry/src/spline/catmull_rom_subspline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
@@ -54,10 +54,10 @@ std::pair<double, double> CatmullRomSubspline::getAltitudeRange() const
     }
 
     return {
-      min_altitude.value_or(std::numeric_limits<double>::min()),
+      min_altitude.value_or(std::numeric_limits<double>::lowest()),
       max_altitude.value_or(std::numeric_limits<double>::max())};
   } else {
-    return {std::numeric_limits<double>::min(), std::numeric_limits<double>::max()};
+    return {std::numeric_limits<double>::lowest(), std::numeric_limits<double>::max()};
   }
 }
 
-- 
2.43.0


From 26d1eb842df02d2a4a9d302097e5b2896b410a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 67/92] fix: take the facing edges of the boxes in the lateral
 distance between bounding boxes along lanes

---
 simulation/traffic_simulator/src/utils/distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/utils/distance.cpp b/simulation/traffic_simulator/src/utils/distance.cpp
index 96cc183..2a44294 100644
--- a/simulation/traffic_simulator/src/utils/distance.cpp
+++ b/simulation/traffic_simulator/src/utils/distance.cpp
@@ -144,10 +144,10 @@ auto boundingBoxLaneLateralDistance(
     auto bounding_box_distance = 0.0;
     if (lateral_distance.value() > 0.0) {
       bounding_box_distance =
-        -std::abs(from_bounding_box_distances.right) - std::abs(to_bounding_box_distances.left);
+        -std::abs(from_bounding_box_distances.left) - std::abs(to_bounding_box_distances.right);
     } else if (lateral_distance.value() < 0.0) {
       bounding_box_distance =
-        std::abs(from_bounding_box_distances.left) + std::abs(to_bounding_box_distances.right);
+        std::abs(from_bounding_box_distances.right) + std::abs(to_bounding_box_distances.left);
     }
     return lateral_distance.value() + bounding_box_distance;
   }
-- 
2.43.0


From b365aa65523e6b04957c278d4321cb05920008db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 68/92] fix: do not offer poses beyond the end of the road as
 alternative lanelet poses

---
 .../src/lanelet_wrapper/pose.cpp              | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
index e4134a3..15fc621 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
@@ -211,15 +211,12 @@ auto alternativeLaneletPoses(const LaneletPose & reference_lanelet_pose) -> std:
       const auto lanelet_pose_in_previous_lanelet = helper::constructLaneletPose(
         previous_lanelet_id, lanelet_pose.s + lanelet_map::laneletLength(previous_lanelet_id),
         lanelet_pose.offset);
-      if (const auto recursive_alternative_poses =
-            alternativeLaneletPoses(lanelet_pose_in_previous_lanelet);
-          recursive_alternative_poses.empty()) {
-        lanelet_poses_in_previous_lanelet.emplace_back(lanelet_pose_in_previous_lanelet);
-      } else {
-        lanelet_poses_in_previous_lanelet.insert(
-          lanelet_poses_in_previous_lanelet.end(), recursive_alternative_poses.begin(),
-          recursive_alternative_poses.end());
-      }
+      /// @note If it is empty, the road ends before the pose on the way through this lanelet.
+      const auto recursive_alternative_poses =
+        alternativeLaneletPoses(lanelet_pose_in_previous_lanelet);
+      lanelet_poses_in_previous_lanelet.insert(
+        lanelet_poses_in_previous_lanelet.end(), recursive_alternative_poses.begin(),
+        recursive_alternative_poses.end());
     }
     return lanelet_poses_in_previous_lanelet;
   };
@@ -230,15 +227,12 @@ auto alternativeLaneletPoses(const LaneletPose & reference_lanelet_pose) -> std:
       const auto lanelet_pose_in_next_lanelet = helper::constructLaneletPose(
         next_lanelet_id, lanelet_pose.s - lanelet_map::laneletLength(lanelet_pose.lanelet_id),
         lanelet_pose.offset);
-      if (const auto recursive_alternative_poses =
-            alternativeLaneletPoses(lanelet_pose_in_next_lanelet);
-          recursive_alternative_poses.empty()) {
-        lanelet_poses_in_next_lanelet.emplace_back(lanelet_pose_in_next_lanelet);
-      } else {
-        lanelet_poses_in_next_lanelet.insert(
-          lanelet_poses_in_next_lanelet.end(), recursive_alternative_poses.begin(),
-          recursive_alternative_poses.end());
-      }
+      /// @note If it is empty, the road ends before the pose on the way through this lanelet.
+      const auto recursive_alternative_poses =
+        alternativeLaneletPoses(lanelet_pose_in_next_lanelet);
+      lanelet_poses_in_next_lanelet.insert(
+        lanelet_poses_in_next_lanelet.end(), recursive_alternative_poses.begin(),
+        recursive_alternative_poses.end());
     }
     return lanelet_poses_in_next_lanelet;
   };
-- 
2.43.0


From 31cabedc208da3b0271f1534fac1b45dcfa8ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 69/92] fix: use the last segment in laneletYaw when the last
 centre point is the nearest

---
 .../traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
index b4a5caf..65cefd8 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
@@ -62,7 +62,10 @@ auto laneletYaw(const lanelet::Id lanelet_id, const Point & point)
           return math::geometry::hypot(p1, point) < math::geometry::hypot(p2, point);
         }));
     };
-    const size_t nearest_point_index = findNearestPointIndex(centerline_points, point);
+    /// @note The last point has no next point, so the last segment is used for it.
+    const size_t nearest_point_index = std::min<size_t>(
+      findNearestPointIndex(centerline_points, point),
+      centerline_points.size() < 2 ? 0 : centerline_points.size() - 2);
     const auto & nearest_point = centerline_points.at(nearest_point_index);
     const auto & next_point = centerline_points.at(nearest_point_index + 1);
     const auto yaw = std::atan2(next_point.y - nearest_point.y, next_point.x - nearest_point.x);
-- 
2.43.0


From 96e698ee17324cfbefcf2dfef4e5194a37973d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 70/92] fix: do not take a missing route for the shortest one
 to an alternative lanelet pose

---
 simulation/traffic_simulator/src/data_type/lanelet_pose.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp b/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
index 7841234..a922aaf 100644
--- a/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
+++ b/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
@@ -80,7 +80,10 @@ auto CanonicalizedLaneletPose::getAlternativeLaneletPoseBaseOnShortestRouteFrom(
   for (const auto & laneletPose : lanelet_poses_) {
     const auto route =
       route::routeFromGraph(from.lanelet_id, laneletPose.lanelet_id, routing_configuration);
-    if (shortest_route.size() > route.size()) {
+    /// @note An empty route means that there is no way to the pose.
+    if (
+      not route.empty() and
+      (shortest_route.empty() or shortest_route.size() > route.size())) {
       shortest_route = route;
       alternative_lanelet_pose = laneletPose;
     }
-- 
2.43.0


From 78e9592a1bd64d555cb0130e2b145a97d9a17b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 71/92] fix: follow the order of the route when bringing a pose
 onto its lanelet

---
 .../src/lanelet_wrapper/pose.cpp              | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
index 15fc621..6291450 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
@@ -370,21 +370,36 @@ auto canonicalizeLaneletPose(const LaneletPose & lanelet_pose, const lanelet::Id
     /// @note When canonicalizing to backward lanelet_id, do not consider route
     return canonicalizeLaneletPose(lanelet_pose);
   }
+  /// @note The lanelets in the route, the one that follows the current one in the route first
+  const auto nextLaneletIdInRoute =
+    [&](const lanelet::Id lanelet_id) -> std::optional<lanelet::Id> {
+    const auto next_lanelet_ids = lanelet_map::nextLaneletIds(lanelet_id);
+    const auto isNext = [&](const auto & id) {
+      return std::find(next_lanelet_ids.begin(), next_lanelet_ids.end(), id) !=
+             next_lanelet_ids.end();
+    };
+    const auto current = std::find(route_lanelets.begin(), route_lanelets.end(), lanelet_id);
+    if (const auto next = std::find_if(current, route_lanelets.end(), isNext);
+        next != route_lanelets.end()) {
+      return *next;
+    } else if (const auto first = std::find_if(route_lanelets.begin(), current, isNext);
+               first != current) {
+      return *first;
+    } else {
+      return std::nullopt;
+    }
+  };
   auto canonicalized_lanelet_pose = lanelet_pose;
   while (canonicalized_lanelet_pose.s >
          lanelet_map::laneletLength(canonicalized_lanelet_pose.lanelet_id)) {
     /// @note When canonicalizing to forward lanelet_id, consider route
     bool found_next_lanelet_in_route = false;
-    for (const auto & next_lanelet_id :
-         lanelet_map::nextLaneletIds(canonicalized_lanelet_pose.lanelet_id)) {
-      if (
-        std::find(route_lanelets.begin(), route_lanelets.end(), next_lanelet_id) !=
-        route_lanelets.end()) {
-        found_next_lanelet_in_route = true;
-        canonicalized_lanelet_pose.s -=
-          lanelet_map::laneletLength(canonicalized_lanelet_pose.lanelet_id);
-        canonicalized_lanelet_pose.lanelet_id = next_lanelet_id;
-      }
+    if (const auto next_lanelet_id =
+          nextLaneletIdInRoute(canonicalized_lanelet_pose.lanelet_id)) {
+      found_next_lanelet_in_route = true;
+      canonicalized_lanelet_pose.s -=
+        lanelet_map::laneletLength(canonicalized_lanelet_pose.lanelet_id);
+      canonicalized_lanelet_pose.lanelet_id = next_lanelet_id.value();
     }
     if (!found_next_lanelet_in_route) {
       return {std::nullopt, canonicalized_lanelet_pose.lanelet_id};
-- 
2.43.0


From adf234509b940c13f15ce5c57db3b86b7ebe4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 72/92] fix: name the lanelets when a route is not connected

---
 simulation/traffic_simulator/src/lanelet_wrapper/route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
index 62215bf..f746dd7 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
@@ -84,7 +84,7 @@ auto followingLanelets(
             following_lanelets_ids.empty() ? current_lanelet_id : following_lanelets_ids.back();
           not is_following_lanelet(previous_lanelet, candidate_lanelet_id)) {
         THROW_SEMANTIC_ERROR(
-          candidate_lanelet_id + " is not the follower of lanelet " + previous_lanelet);
+          candidate_lanelet_id, " is not the follower of lanelet ", previous_lanelet);
       }
       following_lanelets_ids.push_back(candidate_lanelet_id);
       total_distance += lanelet_map::laneletLength(candidate_lanelet_id);
-- 
2.43.0


From bac8f56f128e9bb0148c887edf1300a73ccb2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 73/92] fix: do not refuse the last lanelet of a route when it
 is not to be included

---
 simulation/traffic_simulator/src/lanelet_wrapper/route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
index f746dd7..877c246 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
@@ -98,7 +98,7 @@ auto followingLanelets(
       }
     }
   }
-  if (following_lanelets_ids.empty()) {
+  if (not found_starting_lanelet) {
     THROW_SEMANTIC_ERROR("lanelet id does not match");
   } else if (total_distance <= horizon) {
     const auto remaining_lanelets =
-- 
2.43.0


From 28d41bf5a8a8b71417b64ce454b993be7d500a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 74/92] fix: plan each route for the traffic of its own planner

---
 simulation/traffic_simulator/src/behavior/route_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/behavior/route_planner.cpp b/simulation/traffic_simulator/src/behavior/route_planner.cpp
index 3265688..07efc81 100644
--- a/simulation/traffic_simulator/src/behavior/route_planner.cpp
+++ b/simulation/traffic_simulator/src/behavior/route_planner.cpp
@@ -113,7 +113,7 @@ auto RoutePlanner::updateRoute(const CanonicalizedLaneletPose & entity_lanelet_p
     }
   }
   const auto lanelet_pose = static_cast<LaneletPose>(entity_lanelet_pose);
-  static auto routing_configuration = [this]() {
+  const auto routing_configuration = [this]() {
     RoutingConfiguration config;
     config.routing_graph_type = routing_graph_type_;
     config.allow_lane_change = false;
-- 
2.43.0


From edacf4a79b0d7579ff8c409a2d19b3d781284721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 75/92] fix: plan the route again when waypoints are set or
 reached

---
 simulation/traffic_simulator/src/behavior/route_planner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/route_planner.cpp b/simulation/traffic_simulator/src/behavior/route_planner.cpp
index 07efc81..19d4226 100644
--- a/simulation/traffic_simulator/src/behavior/route_planner.cpp
+++ b/simulation/traffic_simulator/src/behavior/route_planner.cpp
@@ -25,7 +25,7 @@ RoutePlanner::RoutePlanner(const traffic_simulator::RoutingGraphType & routing_g
 auto RoutePlanner::setWaypoints(const std::vector<CanonicalizedLaneletPose> & waypoints) -> void
 {
   // Just setting waypoints to the queue, do not planning route.
-  waypoint_queue_.clear();
+  cancelRoute();
   whole_lanelet_ids_.clear();
   for (const auto & waypoint : waypoints) {
     waypoint_queue_.push_back(waypoint);
@@ -76,8 +76,10 @@ void RoutePlanner::cancelWaypoint(const CanonicalizedLaneletPose & entity_lanele
       cancelRoute();
       break;
     }
-    if (isSameLaneletId(waypoint_queue_.front(), entity_lanelet_pose)) {
+    if (waypoint_queue_.front() <= entity_lanelet_pose) {
       waypoint_queue_.pop_front();
+      // The route led to the waypoint that has been reached, so it has to be planned again.
+      route_ = std::nullopt;
       continue;
     } else {
       break;
-- 
2.43.0


From 9f4e7185e8e19b09254ecd0f3d40cd7207813c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 76/92] fix: move backwards over the previous lanelets

---
 simulation/traffic_simulator/src/utils/route.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/utils/route.cpp b/simulation/traffic_simulator/src/utils/route.cpp
index c3be0fc..2aecf4b 100644
--- a/simulation/traffic_simulator/src/utils/route.cpp
+++ b/simulation/traffic_simulator/src/utils/route.cpp
@@ -97,7 +97,9 @@ auto moveBackPoints(const CanonicalizedLaneletPose & canonicalized_lanelet_pose)
   -> std::vector<Point>
 {
   const auto lanelet_pose = static_cast<LaneletPose>(canonicalized_lanelet_pose);
-  const auto ids = route::previousLanelets(lanelet_pose.lanelet_id);
+  // previousLanelets begins with the current lanelet, the spline has to end with it
+  auto ids = route::previousLanelets(lanelet_pose.lanelet_id);
+  std::reverse(ids.begin(), ids.end());
   // DIFFERENT SPLINE - recalculation needed
   Spline spline(lanelet_wrapper::lanelet_map::centerPoints(ids));
   double s_in_spline = 0;
-- 
2.43.0


From 6b8b0fcdee3ee27923725aca85b89a5e57229f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 77/92] fix: find the nearest of a traffic light's stop lines

---
 .../traffic_simulator/src/lanelet_wrapper/distance.cpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
index fd3f0a9..2b92d1c 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
@@ -186,13 +186,16 @@ auto distanceToTrafficLightStopLine(
   if (route_spline.getLength() <= 0) {
     return std::nullopt;
   } else {
+    std::optional<double> min_distance{std::nullopt};
     const auto stop_lines = traffic_lights::trafficLightStopLinesPoints(traffic_light_id);
     for (const auto & stop_line : stop_lines) {
       if (const auto collision_point = route_spline.getCollisionPointIn2D(stop_line)) {
-        return collision_point;
+        if (not min_distance.has_value() or collision_point.value() < min_distance.value()) {
+          min_distance = collision_point;
+        }
       }
     }
-    return std::nullopt;
+    return min_distance;
   }
 }
 
-- 
2.43.0


From 20f8dc93e2e92ed24071ac95813d4997bac00dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 78/92] fix: ignore traffic light elements without a stop line

---
 .../traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
index 58155f6..a86e715 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
@@ -178,9 +178,8 @@ auto trafficLightStopLinesPoints(const lanelet::Id traffic_light_id)
 {
   std::vector<std::vector<Point>> stop_lines;
   for (const auto & traffic_light : toAutowareTrafficLights(traffic_light_id)) {
-    stop_lines.emplace_back(std::vector<Point>{});
     if (const auto & lanelet_stop_line = traffic_light->stopLine()) {
-      auto & current_stop_line = stop_lines.back();
+      auto & current_stop_line = stop_lines.emplace_back();
       for (const auto & point : lanelet_stop_line.value()) {
         current_stop_line.push_back(
           geometry_msgs::build<Point>().x(point.x()).y(point.y()).z(point.z()));
-- 
2.43.0


From 52d42876465342157a518b5449773b01d14cc237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 79/92] fix: do not take an entity behind for one ahead

---
 simulation/traffic_simulator/src/utils/distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/utils/distance.cpp b/simulation/traffic_simulator/src/utils/distance.cpp
index 2a44294..5ce308c 100644
--- a/simulation/traffic_simulator/src/utils/distance.cpp
+++ b/simulation/traffic_simulator/src/utils/distance.cpp
@@ -240,7 +240,7 @@ auto splineDistanceToBoundingBox(
     if (const auto longitudinal_distance = distance::longitudinalDistance(
           from_lanelet_pose, target_lanelet_pose_alternative.value(), include_adjacent_lanelet,
           include_opposite_direction, routing_configuration);
-        not longitudinal_distance) {
+        not longitudinal_distance or longitudinal_distance.value() < 0.0) {
       return std::nullopt;
     } else if (const auto bounding_box_distance =
                  traffic_simulator::distance::boundingBoxLaneLongitudinalDistance(
-- 
2.43.0


From 978b82c9ca4012480db19815019965af78017a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 80/92] fix: find nearby lanelets that have no subtype

---
 .../traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
index 65cefd8..9c0df5f 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
@@ -135,7 +135,7 @@ auto nearbyLaneletIds(
       std::vector<std::pair<double, lanelet::Lanelet>> filtered_lanelets;
       for (const auto & pair : pair_distance_lanelet) {
         if (
-          pair.second.hasAttribute(lanelet::AttributeName::Subtype) &&
+          not pair.second.hasAttribute(lanelet::AttributeName::Subtype) ||
           pair.second.attribute(lanelet::AttributeName::Subtype).value() != subtype) {
           filtered_lanelets.push_back(pair);
         }
-- 
2.43.0


From fc16e49337084a4bd37cdeeeffcbbefd89380f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 81/92] fix: plan the limits for decelerating in a given time

---
 .../behavior/longitudinal_speed_planning.cpp  | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index 0a3f47f..9ded27b 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -47,13 +47,24 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
   traffic_simulator_msgs::msg::DynamicConstraints ret = constraints;
   const auto quad_duration =
     getQuadraticAccelerationDuration(target_speed, constraints, current_twist, current_accel);
-  if (quad_duration >= acceleration_duration) {
-    ret.max_acceleration_rate =
-      2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
-      (acceleration_duration * acceleration_duration);
-    ret.max_deceleration_rate =
+  const auto linear_acceleration = (target_speed - current_twist.linear.x) / acceleration_duration;
+  if (
+    isAccelerating(target_speed, current_twist) &&
+    current_accel.linear.x >= linear_acceleration) {
+    ret.max_acceleration = linear_acceleration;
+  } else if (
+    isDecelerating(target_speed, current_twist) &&
+    current_accel.linear.x <= linear_acceleration) {
+    ret.max_deceleration = -linear_acceleration;
+  } else if (quad_duration >= acceleration_duration) {
+    const auto linear_jerk =
       2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
       (acceleration_duration * acceleration_duration);
+    if (isAccelerating(target_speed, current_twist)) {
+      ret.max_acceleration_rate = linear_jerk;
+    } else {
+      ret.max_deceleration_rate = -linear_jerk;
+    }
   } else {
     if (isAccelerating(target_speed, current_twist)) {
       double discriminant =
@@ -75,15 +86,15 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
         (constraints.max_deceleration_rate * acceleration_duration *
          constraints.max_deceleration_rate * acceleration_duration) -
         2 * constraints.max_deceleration_rate *
-          (current_twist.linear.x - current_accel.linear.x * acceleration_duration - target_speed);
+          (current_twist.linear.x + current_accel.linear.x * acceleration_duration - target_speed);
 
       if (discriminant < 0) {
         THROW_SEMANTIC_ERROR(
           "Negative discriminant: the target speed is too high compared to the deceleration.");
       }
 
-      ret.max_deceleration = -constraints.max_deceleration_rate * acceleration_duration +
-                             std::sqrt(discriminant) + current_accel.linear.x;
+      ret.max_deceleration = constraints.max_deceleration_rate * acceleration_duration -
+                             std::sqrt(discriminant) - current_accel.linear.x;
     }
   }
   return ret;
@@ -151,7 +162,7 @@ auto LongitudinalSpeedPlanner::getVelocityWithConstantJerk(
       current_twist, current_accel, constraints.max_acceleration_rate, duration);
   } else {
     return getVelocityWithConstantJerk(
-      current_twist, current_accel, constraints.max_deceleration_rate, duration);
+      current_twist, current_accel, -constraints.max_deceleration_rate, duration);
   }
 }
 
@@ -172,13 +183,13 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDurationWithConstantJerk(
     return (-current_accel.linear.x + std::sqrt(
                                         current_accel.linear.x * current_accel.linear.x +
                                         2 * constraints.max_acceleration_rate *
-                                          (constraints.max_speed - current_twist.linear.x))) /
+                                          (target_speed - current_twist.linear.x))) /
            constraints.max_acceleration_rate;
   } else {
-    return (-current_accel.linear.x + std::sqrt(
-                                        current_accel.linear.x * current_accel.linear.x +
-                                        2 * constraints.max_deceleration_rate *
-                                          (-constraints.max_speed - current_twist.linear.x))) /
+    return (current_accel.linear.x + std::sqrt(
+                                       current_accel.linear.x * current_accel.linear.x +
+                                       2 * constraints.max_deceleration_rate *
+                                         (current_twist.linear.x - target_speed))) /
            constraints.max_deceleration_rate;
   }
 }
@@ -204,11 +215,11 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDuration(
     }
   } else {
     double duration =
-      (current_accel.linear.x - constraints.max_deceleration) / constraints.max_deceleration_rate;
+      (constraints.max_deceleration + current_accel.linear.x) / constraints.max_deceleration_rate;
     double v = getVelocityWithConstantJerk(
       current_twist, current_accel, -constraints.max_deceleration_rate, duration);
     // While quadratic acceleration, the entity does not reached the target speed.
-    if (v < target_speed) {
+    if (v > target_speed) {
       return duration;
     }
     // While quadratic acceleration, the entity reached the target speed.
-- 
2.43.0


From 2414809d4799dcaf050c28eb21bf058eedf92315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 82/92] fix: give up the running distance to speeds the
 constraints never reach

---
 .../src/behavior/longitudinal_speed_planning.cpp       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index 9ded27b..c04c844 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <geometry/vector3/operator.hpp>
 #include <iostream>
+#include <limits>
 #include <rclcpp/rclcpp.hpp>
 #include <scenario_simulator_exception/exception.hpp>
 #include <traffic_simulator/behavior/longitudinal_speed_planning.hpp>
@@ -135,8 +136,15 @@ auto LongitudinalSpeedPlanner::getRunningDistance(
   std::tuple<geometry_msgs::msg::Twist, geometry_msgs::msg::Accel, double> next_state =
     std::make_tuple(current_twist, current_accel, current_linear_jerk);
   do {
+    const auto state = next_state;
     next_state =
-      getDynamicStates(target_speed, constraints, std::get<0>(next_state), std::get<1>(next_state));
+      getDynamicStates(target_speed, constraints, std::get<0>(state), std::get<1>(state));
+    if (
+      std::get<0>(next_state).linear.x == std::get<0>(state).linear.x &&
+      std::get<1>(next_state).linear.x == std::get<1>(state).linear.x) {
+      /// @note The constraints do not allow to reach the target speed.
+      return std::numeric_limits<double>::infinity();
+    }
     ret = ret + std::get<0>(next_state).linear.x * step_time +
           std::get<1>(next_state).linear.x * step_time * step_time / 2.0 +
           std::get<2>(next_state) * step_time * step_time * step_time / 6.0;
-- 
2.43.0


From ea1c73666bcbb3d8dd1c4e4df67d85ed478d3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 83/92] fix: decelerate linearly when a linear speed change is
 to a lower speed

---
 simulation/traffic_simulator/src/entity/entity_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 3711e1a..453e2c5 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -225,7 +225,7 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
   }
   switch (transition) {
     case speed_change::Transition::LINEAR: {
-      setLinearAcceleration(acceleration);
+      setLinearAcceleration(std::copysign(acceleration, target_speed - getCurrentTwist().linear.x));
       requestSpeedChangeWithConstantAcceleration(
         target_speed, speed_change::Transition::AUTO, acceleration, continuous);
       break;
@@ -350,7 +350,9 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
   }
   switch (transition) {
     case speed_change::Transition::LINEAR: {
-      setLinearAcceleration(acceleration);
+      setLinearAcceleration(std::copysign(
+        acceleration, target_speed.getAbsoluteValue(getCanonicalizedStatus(), other_status_) -
+                        getCurrentTwist().linear.x));
       requestSpeedChangeWithConstantAcceleration(
         target_speed, speed_change::Transition::AUTO, acceleration, continuous);
       break;
-- 
2.43.0


From 669e4e42a5337d594ee3c1acdbcceeef1a031c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 84/92] fix: end the limits of a speed change with it, restore
 the ones before, and keep speeds reached in time when told to

---
 .../traffic_simulator/entity/entity_base.hpp  |   5 +-
 .../traffic_simulator/job/job_list.hpp        |   1 +
 .../src/entity/entity_base.cpp                | 110 ++++++++++--------
 .../traffic_simulator/src/job/job_list.cpp    |   7 +-
 4 files changed, 71 insertions(+), 52 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/entity/entity_base.hpp b/simulation/traffic_simulator/include/traffic_simulator/entity/entity_base.hpp
index 8ffb9a7..fd6c970 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/entity/entity_base.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/entity/entity_base.hpp
@@ -378,6 +378,7 @@ protected:
   std::shared_ptr<EuclideanDistancesMap> euclidean_distances_map_;
 
 private:
+  auto appendAccelerationLimitJob(const std::function<bool(const double)> & func_on_update) -> void;
   virtual auto requestSpeedChangeWithConstantAcceleration(
     const double target_speed, const speed_change::Transition, const double acceleration,
     const bool continuous) -> void;
@@ -386,8 +387,8 @@ private:
     const speed_change::Transition transition, const double acceleration, const bool continuous)
     -> void;
   virtual auto requestSpeedChangeWithTimeConstraint(
-    const double target_speed, const speed_change::Transition, const double acceleration_time)
-    -> void;
+    const double target_speed, const speed_change::Transition, const double acceleration_time,
+    const bool continuous) -> void;
   virtual auto requestSpeedChangeWithTimeConstraint(
     const speed_change::RelativeTargetSpeed & target_speed,
     const speed_change::Transition transition, const double time) -> void;
diff --git a/simulation/traffic_simulator/include/traffic_simulator/job/job_list.hpp b/simulation/traffic_simulator/include/traffic_simulator/job/job_list.hpp
index a6d9bea..01f7d57 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/job/job_list.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/job/job_list.hpp
@@ -29,6 +29,7 @@ public:
     const std::function<bool(const double)> & func_on_update,
     const std::function<void()> & func_on_cleanup, job::Type type, bool exclusive,
     const job::Event event);
+  void inactivate(job::Type type, bool exclusive);
   void update(const double step_time, const job::Event event);
 
 private:
diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 453e2c5..8bec80d 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -158,6 +158,28 @@ void EntityBase::resetDynamicConstraints()
   setDynamicConstraints(getDefaultDynamicConstraints());
 }
 
+auto EntityBase::appendAccelerationLimitJob(const std::function<bool(const double)> & func_on_update)
+  -> void
+{
+  const auto original = std::make_shared<traffic_simulator_msgs::msg::DynamicConstraints>();
+  job_list_.append(
+    func_on_update,
+    /**
+     * @brief Resets acceleration and deceleration limits to the ones before the request.
+     */
+    [this, original]() {
+      auto constraints = getDynamicConstraints();
+      constraints.max_acceleration = original->max_acceleration;
+      constraints.max_acceleration_rate = original->max_acceleration_rate;
+      constraints.max_deceleration = original->max_deceleration;
+      constraints.max_deceleration_rate = original->max_deceleration_rate;
+      setDynamicConstraints(constraints);
+    },
+    job::Type::LINEAR_ACCELERATION, true, job::Event::POST_UPDATE);
+  /// @note The limits of the previous request have been reset by now.
+  *original = getDynamicConstraints();
+}
+
 auto EntityBase::requestLaneChange(const lane_change::Direction & direction) -> void
 {
   if (isInLanelet()) {
@@ -231,32 +253,28 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
       break;
     }
     case speed_change::Transition::AUTO: {
+      requestSpeedChange(target_speed, continuous);
       if (speed_planner_->isAccelerating(target_speed, getCurrentTwist())) {
-        setAccelerationLimit(std::abs(acceleration));
-        job_list_.append(
+        appendAccelerationLimitJob(
           /**
            * @brief Checking if the entity reaches target speed.
            */
-          [this, target_speed](double) { return getCurrentTwist().linear.x >= target_speed; },
-          /**
-           * @brief Resets acceleration limit.
-           */
-          [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
-          job::Event::POST_UPDATE);
+          [this, target_speed](double) {
+            return isTargetSpeedReached(target_speed) ||
+                   getCurrentTwist().linear.x >= target_speed;
+          });
+        setAccelerationLimit(std::abs(acceleration));
       } else if (speed_planner_->isDecelerating(target_speed, getCurrentTwist())) {
-        setDecelerationLimit(std::abs(acceleration));
-        job_list_.append(
+        appendAccelerationLimitJob(
           /**
            * @brief Checking if the entity reaches target speed.
            */
-          [this, target_speed](double) { return getCurrentTwist().linear.x <= target_speed; },
-          /**
-           * @brief Resets deceleration limit.
-           */
-          [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
-          job::Event::POST_UPDATE);
+          [this, target_speed](double) {
+            return isTargetSpeedReached(target_speed) ||
+                   getCurrentTwist().linear.x <= target_speed;
+          });
+        setDecelerationLimit(std::abs(acceleration));
       }
-      requestSpeedChange(target_speed, continuous);
       break;
     }
     case speed_change::Transition::STEP: {
@@ -269,30 +287,28 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
 
 void EntityBase::requestSpeedChangeWithTimeConstraint(
   const double target_speed, const speed_change::Transition transition,
-  const double acceleration_time)
+  const double acceleration_time, const bool continuous)
 {
-  if (isTargetSpeedReached(target_speed)) {
+  if (isTargetSpeedReached(target_speed) && !continuous) {
     return;
   }
   if (
     std::abs(acceleration_time) <= std::numeric_limits<double>::epsilon() &&
     transition != speed_change::Transition::STEP) {
     requestSpeedChangeWithTimeConstraint(
-      target_speed, speed_change::Transition::STEP, acceleration_time);
+      target_speed, speed_change::Transition::STEP, acceleration_time, continuous);
     return;
   }
   switch (transition) {
     case speed_change::Transition::LINEAR: {
       requestSpeedChangeWithConstantAcceleration(
         target_speed, transition, (target_speed - getCurrentTwist().linear.x) / acceleration_time,
-        false);
+        continuous);
       break;
     }
     case speed_change::Transition::AUTO: {
-      setDynamicConstraints(speed_planner_->planConstraintsFromJerkAndTimeConstraint(
-        target_speed, getCurrentTwist(), getCurrentAccel(), acceleration_time,
-        getDynamicConstraints()));
-      job_list_.append(
+      requestSpeedChange(target_speed, continuous);
+      appendAccelerationLimitJob(
         /**
          * @brief Checking if the entity reaches target speed.
          */
@@ -303,17 +319,14 @@ void EntityBase::requestSpeedChangeWithTimeConstraint(
            * rather than for technical reasons.
            */
           return std::abs(getCurrentTwist().linear.x - target_speed) < 0.01;
-        },
-        /**
-         * @brief Resets deceleration/acceleration limit.
-         */
-        [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
-        job::Event::POST_UPDATE);
-      requestSpeedChange(target_speed, false);
+        });
+      setDynamicConstraints(speed_planner_->planConstraintsFromJerkAndTimeConstraint(
+        target_speed, getCurrentTwist(), getCurrentAccel(), acceleration_time,
+        getDynamicConstraints()));
       break;
     }
     case speed_change::Transition::STEP: {
-      requestSpeedChange(target_speed, false);
+      requestSpeedChange(target_speed, continuous);
       setLinearVelocity(target_speed);
       break;
     }
@@ -333,7 +346,7 @@ void EntityBase::requestSpeedChange(
         target_speed, transition, constraint.value, continuous);
       break;
     case speed_change::Constraint::Type::TIME:
-      requestSpeedChangeWithTimeConstraint(target_speed, transition, constraint.value);
+      requestSpeedChangeWithTimeConstraint(target_speed, transition, constraint.value, continuous);
       break;
     case speed_change::Constraint::Type::NONE:
       requestSpeedChange(target_speed, continuous);
@@ -358,10 +371,11 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
       break;
     }
     case speed_change::Transition::AUTO: {
-      job_list_.append(
-        /**
-         * @brief Checking if the entity reaches target speed.
-         */
+      requestSpeedChange(target_speed, continuous);
+      /**
+       * @brief Checking if the entity reaches target speed.
+       */
+      const auto limit_acceleration =
         [this, target_speed, acceleration](double) {
           const double diff =
             target_speed.getAbsoluteValue(getCanonicalizedStatus(), other_status_) -
@@ -382,13 +396,9 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
             return false;
           }
           return false;
-        },
-        /**
-         * @brief Resets acceleration limit.
-         */
-        [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
-        job::Event::POST_UPDATE);
-      requestSpeedChange(target_speed, continuous);
+        };
+      appendAccelerationLimitJob(limit_acceleration);
+      limit_acceleration(0.0);
       break;
     }
     case speed_change::Transition::STEP: {
@@ -417,13 +427,13 @@ void EntityBase::requestSpeedChangeWithTimeConstraint(
     case speed_change::Transition::LINEAR: {
       requestSpeedChangeWithTimeConstraint(
         target_speed.getAbsoluteValue(getCanonicalizedStatus(), other_status_), transition,
-        acceleration_time);
+        acceleration_time, false);
       break;
     }
     case speed_change::Transition::AUTO: {
       requestSpeedChangeWithTimeConstraint(
         target_speed.getAbsoluteValue(getCanonicalizedStatus(), other_status_), transition,
-        acceleration_time);
+        acceleration_time, false);
       break;
     }
     case speed_change::Transition::STEP: {
@@ -463,8 +473,8 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
   if (isTargetSpeedReached(target_speed) && !continuous) {
     return;
   }
+  job_list_.inactivate(job::Type::LINEAR_ACCELERATION, true);
   if (continuous) {
-    target_speed_ = target_speed;
     job_list_.append(
       /**
        * @brief If the target entity reaches the target speed, return true.
@@ -478,7 +488,6 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
        */
       []() {}, job::Type::LINEAR_VELOCITY, true, job::Event::POST_UPDATE);
   } else {
-    target_speed_ = target_speed;
     job_list_.append(
       /**
        * @brief If the target entity reaches the target speed, return true.
@@ -496,6 +505,7 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
       [this]() { target_speed_ = std::nullopt; }, job::Type::LINEAR_VELOCITY, true,
       job::Event::POST_UPDATE);
   }
+  target_speed_ = target_speed;
 }
 
 void EntityBase::requestSpeedChange(
@@ -504,6 +514,7 @@ void EntityBase::requestSpeedChange(
   if (isTargetSpeedReached(target_speed) && !continuous) {
     return;
   }
+  job_list_.inactivate(job::Type::LINEAR_ACCELERATION, true);
   if (continuous) {
     job_list_.append(
       /**
@@ -538,6 +549,7 @@ void EntityBase::requestSpeedChange(
       [this]() { target_speed_ = std::nullopt; }, job::Type::LINEAR_VELOCITY, true,
       job::Event::POST_UPDATE);
   }
+  target_speed_ = target_speed.getAbsoluteValue(getCanonicalizedStatus(), other_status_);
 }
 
 auto EntityBase::isControlledBySimulator() const -> bool { return true; }
diff --git a/simulation/traffic_simulator/src/job/job_list.cpp b/simulation/traffic_simulator/src/job/job_list.cpp
index e292125..bbd870a 100644
--- a/simulation/traffic_simulator/src/job/job_list.cpp
+++ b/simulation/traffic_simulator/src/job/job_list.cpp
@@ -22,13 +22,18 @@ namespace job
 void JobList::append(
   const std::function<bool(double)> & func_on_update, const std::function<void()> & func_on_cleanup,
   job::Type type, bool exclusive, const job::Event event)
+{
+  inactivate(type, exclusive);
+  list_.emplace_back(Job(func_on_update, func_on_cleanup, type, exclusive, event));
+}
+
+void JobList::inactivate(job::Type type, bool exclusive)
 {
   for (auto & job : list_) {
     if (job.type == type && job.exclusive == exclusive && job.getStatus() == job::Status::ACTIVE) {
       job.inactivate();
     }
   }
-  list_.emplace_back(Job(func_on_update, func_on_cleanup, type, exclusive, event));
 }
 
 void JobList::update(const double step_time, const job::Event event)
-- 
2.43.0


From cd524cee897b03d7c154d789c46c4966e7fc4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 85/92] fix: exchange of a behaviour keeps the status of the
 entity

---
 simulation/traffic_simulator/src/entity/entity_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_manager.cpp b/simulation/traffic_simulator/src/entity/entity_manager.cpp
index 4b494a5..065181b 100644
--- a/simulation/traffic_simulator/src/entity/entity_manager.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_manager.cpp
@@ -329,7 +329,8 @@ auto EntityManager::resetBehaviorPlugin(
   const std::string & name, const std::string & behavior_plugin_name) -> void
 {
   const auto & reference_entity = getEntity(name);
-  const auto & status = reference_entity.getCanonicalizedStatus();
+  /// @note These are copies because the entity they belong to is despawned below.
+  const auto status = reference_entity.getCanonicalizedStatus();
   const auto behavior_parameter = reference_entity.getBehaviorParameter();
   if (reference_entity.is<EgoEntity>()) {
     THROW_SEMANTIC_ERROR(
-- 
2.43.0


From 373251d6471472d22b09afba662027d9a7e74ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 86/92] fix: entities at the end of the road count standing and
 advance jobs

---
 simulation/traffic_simulator/src/entity/pedestrian_entity.cpp | 1 -
 simulation/traffic_simulator/src/entity/vehicle_entity.cpp    | 1 -
 2 files changed, 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/entity/pedestrian_entity.cpp b/simulation/traffic_simulator/src/entity/pedestrian_entity.cpp
index 1d97e6b..8896de6 100644
--- a/simulation/traffic_simulator/src/entity/pedestrian_entity.cpp
+++ b/simulation/traffic_simulator/src/entity/pedestrian_entity.cpp
@@ -305,7 +305,6 @@ auto PedestrianEntity::onUpdate(const double current_time, const double step_tim
   if (const auto canonicalized_lanelet_pose = status_->getCanonicalizedLaneletPose()) {
     if (pose::isAtEndOfLanelets(canonicalized_lanelet_pose.value())) {
       stopAtCurrentPosition();
-      return;
     }
   }
   EntityBase::onPostUpdate(current_time, step_time);
diff --git a/simulation/traffic_simulator/src/entity/vehicle_entity.cpp b/simulation/traffic_simulator/src/entity/vehicle_entity.cpp
index 5b0895d..10a1636 100644
--- a/simulation/traffic_simulator/src/entity/vehicle_entity.cpp
+++ b/simulation/traffic_simulator/src/entity/vehicle_entity.cpp
@@ -169,7 +169,6 @@ auto VehicleEntity::onUpdate(const double current_time, const double step_time)
   if (const auto canonicalized_lanelet_pose = status_->getCanonicalizedLaneletPose()) {
     if (pose::isAtEndOfLanelets(canonicalized_lanelet_pose.value())) {
       stopAtCurrentPosition();
-      return;
     }
   }
   EntityBase::onPostUpdate(current_time, step_time);
-- 
2.43.0


From b429e144d6871362a516418605beb1893b62209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 87/92] fix: misc objects count how long they stand still

---
 .../traffic_simulator/src/entity/misc_object_entity.cpp       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/entity/misc_object_entity.cpp b/simulation/traffic_simulator/src/entity/misc_object_entity.cpp
index a4266f5..660bced 100644
--- a/simulation/traffic_simulator/src/entity/misc_object_entity.cpp
+++ b/simulation/traffic_simulator/src/entity/misc_object_entity.cpp
@@ -25,13 +25,15 @@ MiscObjectEntity::MiscObjectEntity(
 {
 }
 
-auto MiscObjectEntity::onUpdate(const double /*current_time*/, const double) -> void
+auto MiscObjectEntity::onUpdate(const double current_time, const double step_time) -> void
 {
+  EntityBase::onUpdate(current_time, step_time);
   setTwist(geometry_msgs::msg::Twist());
   setAcceleration(geometry_msgs::msg::Accel());
   setLinearJerk(0.0);
   setAction("static");
   status_before_update_.set(*status_);
+  EntityBase::onPostUpdate(current_time, step_time);
 }
 
 auto MiscObjectEntity::getCurrentAction() const -> std::string
-- 
2.43.0


From 1509ffc2d8ea9698ba8d4f658343c930eaf593a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 88/92] fix: teleport by map pose leaves the lane of before

---
 simulation/traffic_simulator/src/entity/entity_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 8bec80d..8ca88df 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -608,6 +608,8 @@ auto EntityBase::setStatus(
 {
   auto status = static_cast<EntityStatus>(getCanonicalizedStatus());
   status.pose = map_pose;
+  /// @note The current lanelet pose is not the one of the given map pose.
+  status.lanelet_pose_valid = false;
   status.action_status = action_status;
   setStatus(status);
 }
-- 
2.43.0


From 1cb29dc9ccd86107649a2eed7f19786f6b97cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 89/92] fix: first map file by name is taken

---
 .../include/traffic_simulator/api/configuration.hpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/api/configuration.hpp b/simulation/traffic_simulator/include/traffic_simulator/api/configuration.hpp
index 51dd0e6..5e2628f 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/api/configuration.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/api/configuration.hpp
@@ -120,8 +120,9 @@ struct Configuration
       const auto filename = each.path().filename().string();
       if (
         each.path().extension() == extension and
-        std::lexicographical_compare(
-          std::cbegin(result), std::cend(result), std::cbegin(filename), std::cend(filename))) {
+        (result.empty() or
+         std::lexicographical_compare(
+           std::cbegin(filename), std::cend(filename), std::cbegin(result), std::cend(result)))) {
         result = filename;
       }
     }
-- 
2.43.0


From b837046c8470b329d9543d9c26f19946f9ed00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 90/92] fix: acceleration and jerk of carried entities are
 changes per time step

---
 simulation/do_nothing_plugin/src/plugin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/do_nothing_plugin/src/plugin.cpp b/simulation/do_nothing_plugin/src/plugin.cpp
index 00ffbd2..803f589 100644
--- a/simulation/do_nothing_plugin/src/plugin.cpp
+++ b/simulation/do_nothing_plugin/src/plugin.cpp
@@ -99,9 +99,9 @@ auto interpolateEntityStatusFromPolylineTrajectory(
     const double linear_velocity =
       math::geometry::hypot(v1.position.position, v0.position.position) / (v1.time - v0.time);
     const auto linear_acceleration =
-      (entity_status->getTwist().linear.x - linear_velocity) / (v1.time - v0.time);
+      (linear_velocity - entity_status->getTwist().linear.x) / step_time;
     const auto linear_jerk =
-      (entity_status->getAccel().linear.x - linear_acceleration) / (v1.time - v0.time);
+      (linear_acceleration - entity_status->getAccel().linear.x) / step_time;
 
     const double angular_velocity =
       math::geometry::convertQuaternionToEulerAngle(
@@ -109,7 +109,7 @@ auto interpolateEntityStatusFromPolylineTrajectory(
         .z /
       (v1.time - v0.time);
     const auto angular_acceleration =
-      (entity_status->getTwist().angular.x - angular_velocity) / (v1.time - v0.time);
+      (angular_velocity - entity_status->getTwist().angular.z) / step_time;
 
     interpolated_entity_status.action_status.twist =
       geometry_msgs::build<geometry_msgs::msg::Twist>()
-- 
2.43.0


From 7f9b05b69d94b49bb29cafec67e6d41b99a17276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 91/92] fix: braking above the target speed keeps to the
 deceleration limit

---
 .../src/behavior/follow_waypoint_controller.cpp               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index 44b8403..e774834 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -430,10 +430,10 @@ auto FollowWaypointController::getAcceleration(
   */
   if (const auto max_acceleration = (acceleration + max_acceleration_rate * step_time);
       speed + max_acceleration * step_time < 0.0) {
-    return max_acceleration;
+    return std::min(max_acceleration, this->max_acceleration);
   } else if (const auto min_acceleration = (acceleration - max_deceleration_rate * step_time);
              speed + min_acceleration * step_time > target_speed) {
-    return min_acceleration;
+    return std::max(min_acceleration, -max_deceleration);
   }
 
   const auto [local_min_acceleration, local_max_acceleration] =
-- 
2.43.0


From d8c2c98937e8eb01813da3a19db51bb9a62e24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 92/92] fix: trajectories are not refused because of rounding

---
 .../traffic_simulator/behavior/follow_waypoint_controller.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp b/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
index e3806ee..c402d0d 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
@@ -295,7 +295,7 @@ public:
      There is no technical basis for this value, it was determined based on
      Dawid Moszynski experiments.
   */
-  static constexpr double local_epsilon = 1e-12;
+  static constexpr double local_epsilon = 1e-9;
 
   explicit constexpr FollowWaypointController(
     const traffic_simulator_msgs::msg::BehaviorParameter & behavior_parameter,
-- 
2.43.0

