From e3fc984bac655986697093cf615e435f8201f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 01/16] fix: adding a negative duration to a time value made it
 infinite

5_tv + (-10) was computed in unsigned arithmetic and compared as a huge value.
---
 src/ossia/editor/scenario/time_value.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 80a297f..dd8355d 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -136,15 +136,10 @@ struct OSSIA_EXPORT time_value
       uint64_t r = rhs.impl;
       return l + r >= infinite_min;
     }
-    else if(lhs.impl >= 0 && rhs.impl < 0)
+    else if((lhs.impl >= 0) != (rhs.impl >= 0))
     {
-      uint64_t l = lhs.impl;
-      return l + rhs.impl >= infinite_min;
-    }
-    else if(lhs.impl < 0 && rhs.impl >= 0)
-    {
-      uint64_t r = rhs.impl;
-      return lhs.impl + r >= infinite_min;
+      // the sum lies between both operands, which are finite
+      return false;
     }
     else if(lhs.impl < 0 && rhs.impl < 0)
     {
-- 
2.43.0


From 4d9fd2389857dcd32ce11d215c25f4f1f44ee44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 02/16] fix: infinite time values compare as equal with !=, <=
 and >= too

== already treats all infinite values as equal.
---
 src/ossia/editor/scenario/time_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index dd8355d..1c66a34 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -261,7 +261,7 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator!=(ossia::time_value rhs) const noexcept
   {
-    return (infinite() != rhs.infinite()) || (impl != rhs.impl);
+    return !(*this == rhs);
   }
   constexpr bool operator<(ossia::time_value rhs) const noexcept
   {
@@ -273,11 +273,11 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator<=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl <= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl <= rhs.impl);
   }
   constexpr bool operator>=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl >= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl >= rhs.impl);
   }
 
   int64_t impl;
-- 
2.43.0


From d3d717e6379bac67f530da0eefe97d2b09ffc1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/16] fix: adding an integer to an infinite time value keeps
 it infinite

operator+= reset it to zero, unlike +, - and -=.
---
 src/ossia/editor/scenario/time_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 1c66a34..da6c22c 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -48,7 +48,7 @@ struct OSSIA_EXPORT time_value
   constexpr time_value& operator+=(int64_t d) noexcept
   {
     if (infinite())
-      impl = 0;
+      impl = infinity;
     else
       impl += d;
 
-- 
2.43.0


From 7fa2595894620d34e149c289e6c6c2d187b10896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 04/16] fix: compare the last signature position in
 token_request equality

---
 src/ossia/dataflow/token_request.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/dataflow/token_request.hpp b/src/ossia/dataflow/token_request.hpp
index 0878124..fd637bc 100644
--- a/src/ossia/dataflow/token_request.hpp
+++ b/src/ossia/dataflow/token_request.hpp
@@ -372,6 +372,7 @@ inline bool operator==(const token_request& lhs, const token_request& rhs)
          && lhs.speed == rhs.speed
          && lhs.tempo == rhs.tempo
          && lhs.signature == rhs.signature
+         && lhs.musical_start_last_signature == rhs.musical_start_last_signature
          && lhs.musical_start_last_bar == rhs.musical_start_last_bar
          && lhs.musical_start_position == rhs.musical_start_position
          && lhs.musical_end_last_bar == rhs.musical_end_last_bar
-- 
2.43.0


From 90c47442d2a258c3236e99cd77bbdd2276fedb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 05/16] fix: SLIP decoder lost every message after a malformed
 one

---
 src/ossia/network/sockets/slip_framing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..0d3711d 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -90,12 +90,13 @@ struct slip_decoder
         {
           // End of a message, we can process it
           case slip::eot:
-            m_status = waiting;
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
+              m_decoded.clear();
             }
-            m_decoded.clear();
+            // Else, we were between two messages: this one starts the next message
             break;
 
           // Start of an escape sequence
-- 
2.43.0


From fbf4ccdf3438429fa068672661f15105d7440bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 06/16] fix: size-prefix decoder misread a prefix received in
 several parts

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..edc65d5 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -28,8 +28,9 @@ struct size_prefix_decoder
   void receive(F f)
   {
     // Receive the size prefix
-    socket.async_read_some(
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
+        boost::asio::transfer_exactly(sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
         });
-- 
2.43.0


From a0626932a4745f89b918a805d56997e8661523b9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 07/16] fix: an empty Minuit text was read out of bounds

---
 src/ossia/network/minuit/detail/minuit_common.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_common.hpp b/src/ossia/network/minuit/detail/minuit_common.hpp
index 7024736..3fc3d21 100644
--- a/src/ossia/network/minuit/detail/minuit_common.hpp
+++ b/src/ossia/network/minuit/detail/minuit_common.hpp
@@ -110,7 +110,7 @@ inline ossia::value value_from_minuit_type_text(ossia::string_view str)
   // integer, decimal, string, generic, boolean, none, array.
   // we can differentiate them by the first character
 
-  switch (str[0])
+  switch (str.empty() ? '\0' : str[0])
   {
     case 'i': // integer
       return int32_t{};
@@ -135,7 +135,7 @@ inline ossia::val_type type_from_minuit_type_text(ossia::string_view str)
   // integer, decimal, string, generic, boolean, none, array.
   // we can differentiate them by the first character
 
-  switch (str[0])
+  switch (str.empty() ? '\0' : str[0])
   {
     case 'i': // integer
       return ossia::val_type::INT;
@@ -173,7 +173,7 @@ inline ossia::string_view to_minuit_service_text(ossia::access_mode acc)
 
 inline ossia::access_mode from_minuit_service_text(ossia::string_view str)
 {
-  switch (str[0])
+  switch (str.empty() ? '\0' : str[0])
   {
     case 'p':
       return ossia::access_mode::BI;
@@ -211,7 +211,7 @@ inline ossia::string_view to_minuit_bounding_text(ossia::bounding_mode b)
 
 inline ossia::bounding_mode from_minuit_bounding_text(ossia::string_view str)
 {
-  switch (str[0])
+  switch (str.empty() ? '\0' : str[0])
   {
     case 'n': // none
       return ossia::bounding_mode::FREE;
@@ -279,7 +279,7 @@ inline minuit_operation get_operation(char str)
 
 inline minuit_operation get_operation(ossia::string_view str)
 {
-  return get_operation(str[0]);
+  return get_operation(str.empty() ? '\0' : str[0]);
 }
 }
 }
-- 
2.43.0


From 8150fd303ef804c3c301a305e7a286892caae1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 08/16] fix: a negative index read a list or a vector out of
 bounds

---
 src/ossia/network/value/value_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/value/value_algorithms.hpp b/src/ossia/network/value/value_algorithms.hpp
index 47c670d..19718bd 100644
--- a/src/ossia/network/value/value_algorithms.hpp
+++ b/src/ossia/network/value/value_algorithms.hpp
@@ -363,7 +363,7 @@ struct destination_index_retriever
     {
       return t;
     }
-    else if ((int64_t)t.size() > *it)
+    else if (*it >= 0 && (int64_t)t.size() > *it)
     {
       auto& val = t[*it];
       ++it;
@@ -395,7 +395,7 @@ struct destination_index_retriever
     {
       return t;
     }
-    else if ((int64_t)t.size() > *it)
+    else if (*it >= 0 && (int64_t)t.size() > *it)
     {
       if (it + 1 == index.end())
         return float{t[*it]};
-- 
2.43.0


From 2d7a59740a4e4dc9a04ebd7fa1b2f5c1194e685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 09/16] fix: the free bounding mode applied the domain to
 constant values

---
 src/ossia/network/domain/domain_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/domain_base.cpp b/src/ossia/network/domain/domain_base.cpp
index 63a9bed..85213d5 100644
--- a/src/ossia/network/domain/domain_base.cpp
+++ b/src/ossia/network/domain/domain_base.cpp
@@ -235,7 +235,7 @@ ossia::domain make_domain_from_minmax(
 
 value apply_domain(const domain& dom, bounding_mode b, const ossia::value& val)
 {
-  if (bool(dom) && bool(val.v))
+  if (bool(dom) && bool(val.v) && b != ossia::bounding_mode::FREE)
   {
     return ossia::apply(apply_domain_visitor{b}, val.v, dom.v);
   }
-- 
2.43.0


From ae1b777937d29f4ffb76e542430678f6f540b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 10/16] fix: osc_parameter_string_with_device left the device
 out

---
 src/ossia/network/base/osc_address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/osc_address.cpp b/src/ossia/network/base/osc_address.cpp
index 1810e7f..8bfd96b 100644
--- a/src/ossia/network/base/osc_address.cpp
+++ b/src/ossia/network/base/osc_address.cpp
@@ -42,7 +42,7 @@ getOSCAddressFromNodeWithDevice_rec(const node_base& n, std::string& str)
 {
   if (auto p = n.get_parent())
   {
-    getOSCAddressFromNode_rec(*p, str);
+    getOSCAddressFromNodeWithDevice_rec(*p, str);
   }
 
   str += '/';
-- 
2.43.0


From 4d575e58ffdf001fb559b4d28f6e379e137f0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 11/16] fix: relative addresses matched the parent in the
 middle of an address

---
 src/ossia/network/base/osc_address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/osc_address.cpp b/src/ossia/network/base/osc_address.cpp
index 8bfd96b..6dedc76 100644
--- a/src/ossia/network/base/osc_address.cpp
+++ b/src/ossia/network/base/osc_address.cpp
@@ -73,7 +73,7 @@ std::string relative_address_string_from_nodes(
   if (parent_addr.back() != '/')
     parent_addr += "/";
 
-  if (addr.find(parent_addr) != std::string::npos)
+  if (addr.compare(0, parent_addr.size(), parent_addr) == 0)
   {
     return addr.substr(parent_addr.size());
   }
-- 
2.43.0


From 3e05689b8b557618f0b85f08252367165f11b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 12/16] fix: finding or creating a node in an unchangeable tree
 dereferenced null

---
 src/ossia/network/base/node_functions.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..bb3f41e 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -71,11 +71,14 @@ static node_base& find_or_create_node_rec(
     else
     {
       // Create a node
-      auto& child = *node.create_child(std::string(cur));
+      auto child = node.create_child(std::string(cur));
+      if (!child)
+        throw std::runtime_error{
+            "find_or_create_node_rec: cannot create the node"};
 
       // Recurse on it
       return find_or_create_node_rec(
-          child, address.substr(first_slash_index + 1));
+          *child, address.substr(first_slash_index + 1));
     }
   }
   else
@@ -89,7 +92,11 @@ static node_base& find_or_create_node_rec(
     else
     {
       // Create and return the node
-      return *node.create_child(std::string(address));
+      auto child = node.create_child(std::string(address));
+      if (!child)
+        throw std::runtime_error{
+            "find_or_create_node_rec: cannot create the node"};
+      return *child;
     }
   }
 }
-- 
2.43.0


From 1adf37b6e12caf1e157e2b6b97d9aa9a224b13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 13/16] fix: values written to a port lost their timestamp

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From a26f6e109851aa022bc26ba4a1ccc31ea976cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 14/16] fix: MIDI messages for channels above 16 had another
 type

---
 src/ossia/dataflow/midi_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/midi_port.hpp b/src/ossia/dataflow/midi_port.hpp
index e80c578..dd8f5c7 100644
--- a/src/ossia/dataflow/midi_port.hpp
+++ b/src/ossia/dataflow/midi_port.hpp
@@ -59,7 +59,7 @@ struct midi_port
 private:
   static uint8_t make_command(const message_type type, const int channel) noexcept
   {
-    return (uint8_t)((uint8_t)type | libremidi::clamp(channel, 0, channel - 1));
+    return (uint8_t)((uint8_t)type | (channel < 1 ? 0 : channel > 16 ? 15 : channel - 1));
   }
 
   message& create(uint8_t b0, uint8_t b1) noexcept
-- 
2.43.0


From ed64c9928ceb5e9f11ad624881c1f7c5386f4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 15/16] fix: a join was not disposed when all its branches were

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..72e72c8 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -104,8 +104,9 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      const auto st = previousTimeInterval->get_start_event().get_status();
+      if ((uint8_t(st) & ~uint8_t(time_event::status::FINISHED))
+          != uint8_t(time_event::status::DISPOSED))
       {
         dispose = false;
         break;
-- 
2.43.0


From 04b1d4095b1d87d6ecc1cf02d95a91ec0f0d7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 16/16] fix: a disposed event happened with the other events of
 its sync

---
 .../detail/scenario_sync_musical_execution.cpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
index 97990dd..c250ea6 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
@@ -80,7 +80,11 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
   for (const std::shared_ptr<time_event>& timeEvent : sync.get_time_events())
   {
     const auto status = timeEvent->get_status();
-    if(is_finished(status) || status == time_event::status::NONE)
+    if(is_disposed(status))
+    {
+      activeCount--;
+    }
+    else if(is_finished(status) || status == time_event::status::NONE)
     {
       bool minimalDurationReached = true;
 
@@ -128,10 +132,6 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
     {
       on_pending(timeEvent.get());
     }
-    else if(is_disposed(status))
-    {
-      activeCount--;
-    }
   }
 
   return pendingCount == activeCount;
-- 
2.43.0

