From 73a2fabae1da01141c51218cf8fb6166915e1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 01/57] fix: clear the switch that was turned off in packet
 flags, not always the readable one

---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From f660788a9338a534d1cf4eaeaa50fb59b6adaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 02/57] fix: do not skip a byte after decoding a 32 bit wide
 uint64 value

---
 framework/core/src/net/rpc/unpacker.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..171985e 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -169,7 +169,6 @@ void Unpacker::unpack(uint64_t &value) noexcept {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-- 
2.43.0


From 703a2d067f1ad9c285e68b0733b0c96ddee6a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 03/57] fix: start unsigned decoding from zero instead of the
 old value of the target

---
 framework/core/src/net/rpc/unpacker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 171985e..26d62f7 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -119,6 +119,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 void Unpacker::unpack(uint16_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -136,12 +137,14 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 void Unpacker::unpack(uint32_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -159,18 +162,21 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 void Unpacker::unpack(uint64_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint64_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
-- 
2.43.0


From 870ba8a691f911362f93be884d42adc739c70516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 04/57] fix: decode untagged bytes of signed values with their
 sign

---
 framework/core/src/net/rpc/unpacker.cc | 38 ++++++++------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 26d62f7..ecb7cbc 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -225,18 +225,10 @@ void Unpacker::unpack(float &value) noexcept {
     exponent -= 127;
     value = std::ldexp(mantissa, exponent);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    // Integral values are packed as signed integers.
+    int64_t val = 0;
+    unpack(val);
+    value = float(val);
   }
 }
 
@@ -265,18 +257,10 @@ void Unpacker::unpack(double &value) noexcept {
     exponent -= 1023;
     value = ldexp(mantissa, exponent);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    // Integral values are packed as signed integers.
+    int64_t val = 0;
+    unpack(val);
+    value = double(val);
   }
 }
 
-- 
2.43.0


From e8c8c0641bd69b5c71432a1f64f5118f5975a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 05/57] fix: keep the sign of the exponent when decoding
 floating point values

---
 framework/core/src/net/rpc/unpacker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index ecb7cbc..a11bbb8 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -218,7 +218,7 @@ void Unpacker::unpack(float &value) noexcept {
     if (bits[31]) {
       mantissa *= -1;
     }
-    uint8_t exponent = 0;
+    int32_t exponent = 0;
     for (auto i = 0U; i < 8; ++i) {
       exponent += bits[i + 23] << i;
     }
@@ -250,7 +250,7 @@ void Unpacker::unpack(double &value) noexcept {
     if (bits[63]) {
       mantissa *= -1;
     }
-    uint16_t exponent = 0;
+    int32_t exponent = 0;
     for (auto i = 0U; i < 11; ++i) {
       exponent += bits[i + 52] << i;
     }
-- 
2.43.0


From 839eca0e73eb19784d887d3eb7f943b8735f8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 06/57] fix: prefix small unsigned values that look like a type
 tag

---
 framework/core/src/net/rpc/packer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..a60adc4 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,9 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // Small values equal to a tag of the unsigned types need the prefix too.
+  if (value <= 0x7f && (value < std::to_underlying(Type::Uint8) ||
+      value > std::to_underlying(Type::Uint64))) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From 3f44f8b40a8cbfb3a950e45f6d6b63f0502db21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 07/57] fix: do not pack the smallest 32 bit value as a 16 bit
 one

---
 framework/core/src/net/rpc/packer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index a60adc4..d3ad12b 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -27,7 +27,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min()) &&
+      value != std::numeric_limits<int32_t>::min()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
-- 
2.43.0


From f03b606706d0c9ccf70944892932fb9da088858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 08/57] fix: stop decoding elements once the input is exhausted

---
 framework/core/include/plain/net/rpc/unpacker.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..7a961c1 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -116,7 +116,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -128,7 +128,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -136,7 +136,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -164,7 +164,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -178,7 +178,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -188,7 +188,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From 153a53fc6775ccab2e6e8650b86009f197dbfa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 09/57] fix: refuse more elements than a std::array can hold

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 7a961c1..ef91eed 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -149,6 +149,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      return;
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
-- 
2.43.0


From d968dbf7c2296c2396a10c28cd23cb9d48d6f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 10/57] fix: keep an earlier decoding error when a nested
 object decodes

---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index ef91eed..9fdc304 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (!error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From 4620bf0fb7792900f4d77d054241b0539e21ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 11/57] fix: do not call a rpc handler with arguments that
 failed to decode

---
 framework/core/include/plain/net/rpc/dispatcher.h | 2 ++
 framework/core/src/net/rpc/dispatcher.cc          | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/dispatcher.h b/framework/core/include/plain/net/rpc/dispatcher.h
index 7cd642e..a24476f 100644
--- a/framework/core/include/plain/net/rpc/dispatcher.h
+++ b/framework/core/include/plain/net/rpc/dispatcher.h
@@ -60,6 +60,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.unpack(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       call(func, args_real);
       return std::shared_ptr<Packer>{};
     }));
@@ -94,6 +95,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.process(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       auto r = call(func, args_real);
       auto packer = std::make_shared<Packer>();
       packer->process(r);
diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index 8bd79c2..0b274e9 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -21,7 +21,9 @@ Dispatcher::dispatch(std::shared_ptr<packet::Basic> pack) {
   auto size = pack->data().size() - pack->offset();
   Unpacker unpacker(data, size);
 
-  return it->second(unpacker);
+  auto result = it->second(unpacker);
+  if (unpacker.error_) return unpacker.error_;
+  return result;
 }
 
 void Dispatcher::enforce_unique_name(const std::string &name) {
-- 
2.43.0


From 9ec59f64d8dac8668fce164a608ddedeae88fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 12/57] fix: strip the end marker of rpc lines as well as the
 begin marker

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..f65135e 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -126,7 +126,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4);
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From fe0c3723a14b05c639719a04906e3f07cacbdaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 13/57] fix: limit decoded lines by the packet limit, not by
 the capacity of the buffer

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index f65135e..0089a7b 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -92,7 +92,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
   bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  auto readed = input->peek(bytes.data(), packet_limit.max_length);
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 7b2b15092699fac1cec803d7e27a058eff61b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 14/57] fix: take a pending rpc call out of the table, under
 its lock, when its response arrives

---
 framework/core/src/net/connection/basic.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..495b91c 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -358,12 +358,15 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
+  std::unique_lock<std::mutex> lock{mutex};
   auto it = callings.find(index);
   if (it == callings.end()) {
     LOG_WARN << "rpc response no calling: " << index << " error: " << error;
     return false;
   }
-  auto &call = it->second;
+  auto call = std::move(it->second);
+  callings.erase(it); // One response settles the call.
+  lock.unlock();
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
-- 
2.43.0


From a0f9f3ad6cd62ef0cada3d1230a4bc4f3ad36de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 15/57] fix: fail the pending rpc calls of a connection that is
 closed

---
 framework/core/src/net/connection/basic.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 495b91c..50ae419 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -436,8 +436,11 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
-  return impl_->socket->close();
+  auto r = !impl_->socket->valid() || impl_->socket->close();
+  // No response can arrive any more, so the waiters must not wait for it.
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  impl_->callings.clear();
+  return r;
 }
   
 bool Basic::valid() const noexcept {
@@ -550,7 +553,7 @@ bool Basic::send_call(
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   packet->set_call_request(true);
-  auto r = impl_->write(packet);
+  auto r = impl_->socket->valid() && impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
     impl_->callings.emplace(
       index, std::make_pair(func_name, std::move(*promise)));
-- 
2.43.0


From f7fb2b701e1876afe6e424a01724d45efa5885d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 16/57] fix: guard the output stream of a connection on every
 path and do not take the manager lock under the connection lock

---
 framework/core/src/net/connection/basic.cc | 47 +++++++++++++---------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 50ae419..941fad5 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -121,20 +121,21 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
-  {
-    std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+  std::unique_lock<std::mutex> lock{mutex};
+  auto r = ostream->push();
+  // Decide in the same section that senders write in, otherwise what they
+  // write after the test stays in the stream.
+  if (r >= 0 && ostream->size() == 0)
+    work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
+  lock.unlock(); // The manager is locked before connections.
+  if (r < 0) {
+    LOG_ERROR << get_name(conn) << " push failed: " << r;
+    return false;
+  }
+  auto m = manager.lock();
+  if (r > 0 && m) {
+    m->increase_send_size(r);
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
@@ -412,11 +413,14 @@ Basic &Basic::operator=(Basic &&object) noexcept = default;
 bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
-  impl_->work_flags = 0;
-  impl_->istream->clear();
-  impl_->ostream->clear();
-  impl_->callings.clear();
-  impl_->call_index = 0;
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->work_flags = 0;
+    impl_->istream->clear();
+    impl_->ostream->clear();
+    impl_->callings.clear();
+    impl_->call_index = 0;
+  }
   auto connect_call_key = get_callable_key(this, "__connect");
   s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
@@ -533,8 +537,11 @@ void Basic::on_connect() noexcept {
 }
   
 void Basic::on_disconnect() noexcept {
-  impl_->istream->clear();
-  impl_->ostream->clear();
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->istream->clear();
+    impl_->ostream->clear();
+  }
   impl_->working.store(false, std::memory_order_relaxed);
   check_callable(this, "__disconnect");
 }
-- 
2.43.0


From a632f3217ead34421f095138c2525428abd9d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 17/57] fix: do not lose input or the end of the stream that
 arrives while the input flag is cleared

---
 framework/core/src/net/connection/basic.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 941fad5..9a9ae7f 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -94,10 +94,8 @@ Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
+  // Clear before reading: what arrives later raises the flag again.
+  set_work_flag(WorkFlag::Input, false);
   assert(conn);
   if (!socket->valid()) return false;
   auto r = istream->pull();
@@ -105,6 +103,10 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
     LOG_ERROR << get_name(conn) << " pull failed: " << r;
     return false;
   }
+  // The events are edge triggered, so read until the socket would block (the
+  // end of the stream has no available bytes).
+  if (r > 0)
+    set_work_flag(WorkFlag::Input, true);
   auto m = manager.lock();
   if (m) {
     m->increase_recv_size(r);
-- 
2.43.0


From 3e756a1f7c081f5294cce142785ca18af7b6ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:23 +0000
Subject: [PATCH 18/57] fix: guard the table of connection callbacks that all
 connections share

---
 framework/core/src/net/connection/basic.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 9a9ae7f..ea3f2de 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -16,6 +16,7 @@ using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
 static std::unordered_map<std::string, callable_func> s_callables;
+static std::mutex s_callables_mutex;
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
@@ -27,9 +28,14 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it != s_callables.end())
+      func = it->second;
+  }
+  if (func) func(p);
 }
 
 struct Basic::Impl {
@@ -424,9 +430,12 @@ bool Basic::init() noexcept {
     impl_->call_index = 0;
   }
   auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    s_callables.erase(connect_call_key);
+    s_callables.erase(disconnect_call_key);
+  }
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -510,11 +519,13 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
   
 void Basic::set_connect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__connect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__disconnect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
-- 
2.43.0


From b379279a64967527d2de336c564361024104486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:23 +0000
Subject: [PATCH 19/57] fix: read the connection table and the counters of the
 manager under its lock

---
 framework/core/src/net/connection/manager.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..af8f8dc 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -265,8 +265,11 @@ void Manager::stop() {
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
-    if (conn && conn->valid()) conn->shutdown();
+  {
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    for (auto conn : impl_->connection_info.list) {
+      if (conn && conn->valid()) conn->shutdown();
+    }
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   impl_->cv.notify_one(); // Just one for wait work.
@@ -369,6 +372,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
 }
   
 bool Manager::is_full() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
   return impl_->connection_info.free_ids.empty() &&
     impl_->connection_info.max_id != kInvalidId &&
     impl_->connection_info.max_id >= static_cast<id_t>(setting_.max_count);
@@ -576,10 +580,12 @@ void Manager::increase_recv_size(size_t size) {
 }
 
 uint64_t Manager::send_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->send_size;
 }
 
 uint64_t Manager::recv_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->recv_size;
 }
 
-- 
2.43.0


From e699c473d9f0d198c0efc7f357469e95090043cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:23 +0000
Subject: [PATCH 20/57] fix: do not lose the wakeup of the manager worker
 between its test and its wait

---
 framework/core/src/net/connection/manager.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index af8f8dc..4f49bf5 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -27,7 +27,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> free_ids;
-  size_t size{0};
+  std::atomic_size_t size{0};
   id_t max_id{0};
 };
 
@@ -66,6 +66,7 @@ struct Manager::Impl {
   void init_connections(uint32_t count);
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   static bool wait_work(std::shared_ptr<Manager> manager) noexcept;
+  void notify_work() noexcept;
 #else
   static void enqueue_work_await(std::shared_ptr<Manager> manager) noexcept;
   static plain::net::detail::Task<bool>
@@ -135,11 +136,16 @@ Manager::Impl::work_await(std::shared_ptr<Manager> manager) noexcept {
 #endif
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+void Manager::Impl::notify_work() noexcept {
+  // The worker must not be between its test and its wait.
+  { std::unique_lock<std::mutex> lock{wait_mutex}; }
+  cv.notify_one(); // Just one for wait work.
+}
+
 bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
   assert(manager);
-  std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
-  if (manager->listen_fd_ == socket::kInvalidId && 
-    manager->impl_->connection_info.size == 0) {
+  {
+    std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
     manager->impl_->cv.wait(lock, [manager] {
       return manager->listen_fd_ != socket::kInvalidId ||
         manager->impl_->connection_info.size > 0 || !manager->running();
@@ -272,7 +278,7 @@ void Manager::stop() {
     }
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->notify_work();
 #endif
   send_ctrl_cmd("k"); // Send stop.
 
@@ -366,7 +372,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->notify_work();
 #endif
   return r;
 }
-- 
2.43.0


From b724a801d2165f73ca25821a966e37f9569a8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:23 +0000
Subject: [PATCH 21/57] fix: do not occupy a connection slot for an invalid
 socket

---
 framework/core/src/net/connection/manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 4f49bf5..1d13d75 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -502,6 +502,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::accept() noexcept {
   
 std::shared_ptr<plain::net::connection::Basic>
 Manager::accept(socket::id_t sock_id) noexcept {
+  if (sock_id == socket::kInvalidId) return {};
   auto conn = new_conn();
   std::cout << "accept: " << setting_.name << "|" << sock_id << std::endl;
   if (!conn) {
@@ -511,7 +512,6 @@ Manager::accept(socket::id_t sock_id) noexcept {
     sock->close();
     return {};
   }
-  if (sock_id == socket::kInvalidId) return {};
   conn->socket()->set_id(sock_id);
   if (!conn->socket()->set_nonblocking()) {
     remove(conn, true);
-- 
2.43.0


From ea4f8dfbc8b100e3fefd9597a19f907734d8c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:23 +0000
Subject: [PATCH 22/57] fix: do not remove a connection that has been removed
 before

---
 framework/core/src/net/connection/manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 1d13d75..dcf46b9 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -396,6 +396,7 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
+  if (!impl_->connection_info.ids->contains(conn_id)) return; // Removed before.
   auto &conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
-- 
2.43.0


From c312f96c865603b323cad448e55937e1c7e0f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:45 +0000
Subject: [PATCH 23/57] fix: look up console handlers and descriptions under
 the lock that registration takes

---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..26a250a 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -165,6 +165,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -331,10 +333,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(d, params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From 33099ab78586dd95f4d711e7e00b4e97e0f915ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:45 +0000
Subject: [PATCH 24/57] fix: replace the console handler that was registered
 before, as announced

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 26a250a..e52a221 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -366,7 +366,7 @@ void Kernel::register_console_handler(
   auto it = impl_->console_handlers.find(cmd.data());
   if (it != impl_->console_handlers.end())
     LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+  impl_->console_handlers.insert_or_assign(std::string{cmd}, func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(std::string{cmd}, std::string{desc});
 }
-- 
2.43.0


From 28ba025302959ba4f2e2b8c431ef7f0e510cfe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 25/57] fix: keep the stored elements in order when a ring
 buffer grows

---
 framework/core/include/plain/basic/ring.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..5f3f283 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -241,6 +241,15 @@ using cookie_func_t = std::function<void()>;
     size_.store(size, std::memory_order_relaxed);
     mask_.store(size - 1, std::memory_order_relaxed);
   }
+  // The stored elements keep their index, which is another place in a buffer
+  // of another size.
+  void move_buffer(T *buffer, std::size_t size) noexcept {
+    const std::size_t head{head_.load(std::memory_order_relaxed)};
+    std::size_t i{tail_.load(std::memory_order_relaxed)};
+    for (; i != head; ++i)
+      buffer[i & (size - 1)] = buffer_[i & mask_];
+    set_buffer(buffer, size);
+  }
 
  private:
   virtual bool resize(size_t) { return false; }
@@ -305,10 +314,13 @@ class DynamicRing : public Ring<T, fake_tso> {
     std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
     if (size == 0) {
       buffer_.clear();
-      size = SIZE;
+      buffer_.resize(SIZE);
+      this->set_buffer(buffer_.data(), SIZE);
+      return true;
     }
-    buffer_.resize(size);
-    this->set_buffer(buffer_.data(), size);
+    std::vector<T> buffer(size);
+    this->move_buffer(buffer.data(), size);
+    buffer_.swap(buffer);
     return true;
   }
 
-- 
2.43.0


From ac8e1e89457f4c79b585b7e93d2f5a19a3a71866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 26/57] fix: do not enqueue a task of the worker itself a
 second time

---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 6399cf75e3bd9704d86dbcef6c59f7414aa8342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 27/57] fix: test the task queue for emptiness under its lock

---
 framework/core/include/plain/basic/task_queue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..ec2cbd7 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -29,7 +29,11 @@ public:
      task();
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (!empty()) work_one();
+   }
+   bool empty() {
+     std::unique_lock<std::mutex> lock(queue_mutex_);
+     return tasks_.empty();
    }
 
  public:
-- 
2.43.0


From 66b23505c87ba1b2e449820028c2d93bdee1d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 28/57] fix: write the messages that are appended while the
 logger stops

---
 framework/core/src/basic/async_logger.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..61fbed7 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -246,6 +246,16 @@ void AsyncLogger::Impl::thread_handle() {
     write_buffers.clear();
     file.flush();
   }
+  // What was appended while the last buffers were written.
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    buffers_.emplace_back(std::move(current_buffer_));
+    current_buffer_ = std::move(buffer1);
+    write_buffers.swap(buffers_);
+  }
+  for (const auto& buf : write_buffers) {
+    file.append({buf->peek(), buf->read_avail()});
+  }
   // Thread end flush.
   file.flush();
 }
-- 
2.43.0


From 8118f5f2edaa8f781fe34d77aaaf5581197dc105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:07 +0000
Subject: [PATCH 29/57] fix: copy the descriptor sets of the select backend
 under the lock that changes them

---
 framework/core/src/net/connection/select.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..2a49569 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,16 +53,19 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
+  std::unique_lock lock{mutex};
   if (max_fd == socket::kInvalidId) return;
   read_fds.use = read_fds.full;
   // write_fds.use = write_fds.full;
   except_fds.use = except_fds.full;
+  const auto fd_count = max_fd + 1;
+  lock.unlock();
   if (select_timeout >= 0) {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
+      fd_count, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
+      fd_count, &read_fds.use, nullptr, &except_fds.use, nullptr);
   }
 }
 
@@ -76,6 +79,7 @@ Select::Select(
 Select::~Select() = default;
 
 bool Select::prepare() noexcept {
+  std::unique_lock lock{impl_->mutex};
   if (listen_fd_ != socket::kInvalidId) {
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
-- 
2.43.0


From 0bbb9b6cb51ede53fe8cc5280030d68d92c4bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:07 +0000
Subject: [PATCH 30/57] fix: refuse descriptors that do not fit in a fd_set

---
 framework/core/src/net/connection/select.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 2a49569..aa692dd 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -125,6 +125,9 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
+#if OS_UNIX
+      if (id < 0 || id >= FD_SETSIZE) return; // Closed in the meantime.
+#endif
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
@@ -151,6 +154,9 @@ bool Select::sock_add(
   assert(impl_->fd_size < FD_SETSIZE);
   assert(sock_id != socket::kInvalidId);
   assert(conn_id != connection::kInvalidId);
+#if OS_UNIX
+  if (sock_id < 0 || sock_id >= FD_SETSIZE) return false; // Not in a fd_set.
+#endif
 
   FD_SET(sock_id, &impl_->read_fds.full);
   FD_SET(sock_id, &impl_->write_fds.full);
-- 
2.43.0


From 1ff080e9ac4519820c699d41bd5151a1905f1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:07 +0000
Subject: [PATCH 31/57] fix: do not hold the registration lock while the
 executors shut down

---
 framework/core/src/engine/kernel.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index e52a221..f70a808 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -43,12 +43,20 @@ struct executor_collection {
   }
   
   void shutdown_all() {
-    std::unique_lock<decltype(lock)> _lock{lock};
-    for (auto &executor : executors) {
-      assert(static_cast<bool>(executor));
-      executor->shutdown();
+    // A task that is still running may register an executor, and shutdown waits
+    // for it, so the lock is not held meanwhile.
+    for (;;) {
+      decltype(executors) _executors;
+      {
+        std::unique_lock<decltype(lock)> _lock{lock};
+        _executors.swap(executors);
+      }
+      if (_executors.empty()) break;
+      for (auto &executor : _executors) {
+        assert(static_cast<bool>(executor));
+        executor->shutdown();
+      }
     }
-    executors = {};
   }
 };
 
-- 
2.43.0


From c8e5e46da926ec03472b7fccf4bb77b1fac84ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:07 +0000
Subject: [PATCH 32/57] fix: drop the pending timer requests outside the lock
 when a timer queue shuts down

---
 framework/core/src/engine/timer_queue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..03b5446 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -304,8 +304,10 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
-  impl_->request_queue.clear();
+  // Dropping a pending delay resumes its coroutine, which may use this queue.
+  auto request_queue = std::move(impl_->request_queue);
   lock.unlock();
+  request_queue.clear();
 
   impl_->condition.notify_all();
   impl_->worker.join();
-- 
2.43.0


From a912301a6d0961da72734d533ed069b47b1ac23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:01 +0000
Subject: [PATCH 33/57] fix: answer the call of a rpc function that has no
 result

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index ea3f2de..6c2e62c 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -344,7 +344,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector(); // No result, no packer.
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From 03cf74590de55ddc4fe230f5ab0a7cf1967feec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:01 +0000
Subject: [PATCH 34/57] fix: keep the bytes of a rpc response as long as the
 result that refers to them

---
 framework/core/include/plain/net/rpc/unpacker.h | 7 +++++++
 framework/core/src/net/connection/basic.cc      | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 9fdc304..d91a0a2 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -14,6 +14,7 @@
 
 #include "plain/net/rpc/config.h"
 #include <chrono>
+#include <memory>
 #include "plain/basic/error.h"
 #include "plain/net/rpc/traits.h"
 
@@ -43,6 +44,11 @@ class PLAIN_API Unpacker {
     data_end_ = data + size;
   }
 
+  // Keep what owns the data as long as this unpacker.
+  void hold(std::shared_ptr<const void> owner) noexcept {
+    owner_ = std::move(owner);
+  }
+
   void increment(int64_t bytes = 1) {
     if (data_end_ - data_ >= bytes) {
       data_ += bytes;
@@ -230,6 +236,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 6c2e62c..5cb3a9f 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -383,7 +383,9 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    rpc::Unpacker unpacker(data, size);
+    unpacker.hold(packet); // The caller reads after this packet is handled.
+    std::get<1>(call).set_value(std::move(unpacker));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
-- 
2.43.0


From 9ffbc4a9d8cd582221795f576c9ced8b50782dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 35/57] fix: fail the pending rpc calls when the manager of
 their connection stops

---
 framework/core/src/net/connection/manager.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dcf46b9..905c757 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -291,6 +291,11 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  // Nothing is received any more, so no call may wait for its response.
+  std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+  for (auto conn : impl_->connection_info.list) {
+    if (conn) conn->close();
+  }
 }
 
 bool Manager::running() const noexcept {
-- 
2.43.0


From 6f474e1f42c6d5a4e7431d3436a81f3ceb3974af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:50 +0000
Subject: [PATCH 36/57] fix: run a task posted while the pool worker is leaving
 at its idle timeout

A task queued after the semaphore wait had timed out and before the worker
took the lock stayed in the queue of a worker without a thread.
---
 framework/core/src/concurrency/executor/thread_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..f2e262b 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -291,7 +291,7 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  if (abort_ || (!event_found && public_queue_.empty())) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From 7774f7abd3057e3f7cf6b6d4b762478729a08acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:50 +0000
Subject: [PATCH 37/57] fix: keep the tasks given to a pool from a worker of
 another pool

The thread local worker was used whatever the pool it belongs to: the task ran
on the poster's pool, also after the shutdown of the pool it was given to.
---
 .../core/src/concurrency/executor/thread_pool.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index f2e262b..3d1b2b3 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -532,8 +532,13 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
 }
 
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker_index >= workers_.size() ||
+      &workers_[this_worker_index] != this_worker) { // Not of this pool.
+    this_worker = nullptr;
+    this_worker_index = static_cast<size_t>(-1);
+  }
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -550,8 +555,11 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker_index < workers_.size() &&
+      &workers_[this_worker_index] == this_worker) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From 9e2332cc93c11f15bf8035aa050a02671a4b3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 38/57] fix: an executor that shuts down while a timer fires no
 longer ends the process

---
 framework/core/src/engine/timer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..d4aecf2 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,15 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (...) {
+    // The executor can be shut down between the check and the post.
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From f3e9f03cebbec132c66c38992c1bf180a76fb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:27 +0000
Subject: [PATCH 39/57] fix: a timer made from a named callable copies it
 instead of emptying it

---
 framework/core/include/plain/engine/timer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/engine/timer.h b/framework/core/include/plain/engine/timer.h
index 67e281f..8de494e 100644
--- a/framework/core/include/plain/engine/timer.h
+++ b/framework/core/include/plain/engine/timer.h
@@ -109,7 +109,8 @@ class TimerState : public TimerStateBasic {
     std::shared_ptr<concurrency::executor::Basic> executor,
     std::weak_ptr<TimerQueue> timer_queue, bool is_oneshot, CT &&callable) :
     TimerStateBasic(due_time, frequency, std::move(executor),
-      std::move(timer_queue), is_oneshot), callable_{std::move(callable)} {
+      std::move(timer_queue), is_oneshot),
+    callable_{std::forward<CT>(callable)} {
 
   }
 
-- 
2.43.0


From 21739393fc01bb15e32e03464c06e2148d86411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:20 +0000
Subject: [PATCH 40/57] fix: when_any returns for a result that finishes while
 it registers

The state told the caller that it was registered although the producer had
finished between the check and the registration and so will not resume it;
when_any never returned.
---
 framework/core/src/concurrency/result/detail/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..ccdf904 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,7 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    assert_done();
+    return ProcessStatus::ProducerDone;
+  }
   return status;
 }
 
-- 
2.43.0


From 8f55ba4c92b5b852ffbf224248606b0fd9b53a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:08 +0000
Subject: [PATCH 41/57] fix: do not free a result while its producer still
 reads who waits for it

A shared result that is dropped, or a result that goes on after when_any,
could free the state between the moment the producer publishes the value
and the moment it reads the consumer context.
---
 .../plain/concurrency/result/detail/consumer_context.h |  4 ++++
 .../src/concurrency/result/detail/consumer_context.cc  | 10 ++++++++++
 framework/core/src/concurrency/result/detail/state.cc  |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/framework/core/include/plain/concurrency/result/detail/consumer_context.h b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
index 9ed92f3..123a7d4 100644
--- a/framework/core/include/plain/concurrency/result/detail/consumer_context.h
+++ b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
@@ -13,6 +13,7 @@
 #define PLAIN_CONCURRENCY_RESULT_DETAIL_CONSUMER_CONTEXT_H_
 
 #include "plain/concurrency/result/detail/config.h"
+#include <atomic>
 #include <semaphore>
 
 namespace plain::concurrency {
@@ -61,6 +62,8 @@ class PLAIN_API ConsumerContext {
 
  public:
   void clear() noexcept;
+  // Waits until the producer that resumes this consumer has read its context.
+  void wait_taken() const noexcept;
   void resume_consumer(StateBasic &self) const;
   void set_await_handle(coroutine_handle<void> caller_handle) noexcept;
   void set_wait_for_context(
@@ -85,6 +88,7 @@ class PLAIN_API ConsumerContext {
 
  private:
   ConsumerStatus status_{ConsumerStatus::Idle};
+  mutable std::atomic<bool> taken_{false};
   storage storage_;
 
 };
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..6e37e85 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/consumer_context.h"
+#include <thread>
 #include <utility>
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -142,6 +143,13 @@ void ConsumerContext::clear() noexcept {
   status_ = ConsumerStatus::Idle;
 }
 
+void ConsumerContext::wait_taken() const noexcept {
+  if (status_ != ConsumerStatus::WhenAny && status_ != ConsumerStatus::Shared)
+    return;
+  while (!taken_.load(std::memory_order_acquire))
+    std::this_thread::yield();
+}
+
 void ConsumerContext::set_await_handle(
   coroutine_handle<void> caller_handle) noexcept {
   assert(status_ == ConsumerStatus::Idle);
@@ -179,10 +187,12 @@ void ConsumerContext::resume_consumer(StateBasic &self) const {
     }
     case ConsumerStatus::WhenAny: {
       const auto when_any_ctx = storage_.when_any_ctx;
+      taken_.store(true, std::memory_order_release);
       return when_any_ctx->try_resume(self);
     }
     case ConsumerStatus::Shared: {
       const auto weak_shared_ctx = storage_.shared_ctx;
+      taken_.store(true, std::memory_order_release);
       const auto shared_ctx = weak_shared_ctx.lock();
       if (static_cast<bool>(shared_ctx)) {
         shared_ctx->on_finished();
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index ccdf904..728c711 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -93,6 +93,7 @@ ProcessStatus StateBasic::when_any(
     std::memory_order_acquire);
   if (!idle) {
     assert_done();
+    consumer_.clear();
     return ProcessStatus::ProducerDone;
   }
   return status;
@@ -114,11 +115,13 @@ void StateBasic::share(
     std::memory_order_acquire);
   if (idle) return;
   assert_done();
+  consumer_.clear();
   shared_result_state->on_finished();
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
   const auto status = process_status_.load(std::memory_order_acquire);
+  if (status == ProcessStatus::ProducerDone) return consumer_.wait_taken();
   if (status != ProcessStatus::ConsumerSet) return;
   auto expected_status = ProcessStatus::ConsumerSet;
   const auto consumer = process_status_.compare_exchange_strong(
@@ -128,6 +131,7 @@ void StateBasic::try_rewind_consumer() noexcept {
     std::memory_order_acquire);
   if (!consumer) {
     assert_done();
+    consumer_.wait_taken();
     return;
   }
   consumer_.clear();
-- 
2.43.0


From f94b1d58cdac7ed34abb41a783710141ef0c5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 42/57] fix: let callables be posted, submitted and timed
 together with arguments

bind did not compile with any argument.
---
 framework/core/include/plain/basic/bind.h               | 4 ++--
 framework/core/include/plain/concurrency/result/basic.h | 2 +-
 framework/core/include/plain/engine/timer_queue.h       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/basic/bind.h b/framework/core/include/plain/basic/bind.h
index f61e6fd..6b56cd1 100644
--- a/framework/core/include/plain/basic/bind.h
+++ b/framework/core/include/plain/basic/bind.h
@@ -26,7 +26,7 @@ template <typename F, typename ...Args>
 auto bind(F &&function, Args &&...args) {
   constexpr static auto inti = std::is_nothrow_invocable_v<F, Args...>;
   return [function = std::forward<F>(function),
-         tuple = std::make_tuple(std::forward(args)...)]()
+         tuple = std::make_tuple(std::forward<Args>(args)...)]()
            mutable noexcept(inti) -> decltype(auto) {
     return std::apply(function, tuple);
   };
@@ -57,7 +57,7 @@ auto bind_with_try_catch(F &&function) {
 template <typename F, typename ...Args>
 auto bind_with_try_catch(F &&function, Args &&...args) {
   return bind_with_try_catch(
-    bind(std::forward<F>(function), std::forward<Args>(args)...));
+    plain::bind(std::forward<F>(function), std::forward<Args>(args)...));
 }
 
 } // namespace plain
diff --git a/framework/core/include/plain/concurrency/result/basic.h b/framework/core/include/plain/concurrency/result/basic.h
index b11a05b..20af533 100644
--- a/framework/core/include/plain/concurrency/result/basic.h
+++ b/framework/core/include/plain/concurrency/result/basic.h
@@ -202,7 +202,7 @@ class ResultPromise {
 
     throw_if_empty("set_from_function error");
     producer_state_->from_callable(
-      bind(std::forward<CT>(callable),
+      plain::bind(std::forward<CT>(callable),
       std::forward<Args>(args)...));
     producer_state_.reset();  // publishes the result
   }
diff --git a/framework/core/include/plain/engine/timer_queue.h b/framework/core/include/plain/engine/timer_queue.h
index 86005e2..304398b 100644
--- a/framework/core/include/plain/engine/timer_queue.h
+++ b/framework/core/include/plain/engine/timer_queue.h
@@ -49,7 +49,7 @@ class PLAIN_API TimerQueue : public std::enable_shared_from_this<TimerQueue> {
       throw std::invalid_argument("make_timer - executor is null.");
     return make_timer_impl(
       due_time.count(), frequency.count(), std::move(executor), false,
-      bind(std::forward<T>(callable), std::forward<Args>(args)...));
+      plain::bind(std::forward<T>(callable), std::forward<Args>(args)...));
   }
 
   template <typename T, typename ...Args>
@@ -61,7 +61,7 @@ class PLAIN_API TimerQueue : public std::enable_shared_from_this<TimerQueue> {
       throw std::invalid_argument("make_one_shot_timer - executor is null.");
     return make_timer_impl(
       due_time.count(), 0, std::move(executor), true,
-      bind(std::forward<T>(callable), std::forward<Args>(args)...));
+      plain::bind(std::forward<T>(callable), std::forward<Args>(args)...));
   }
 
   concurrency::LazyResult<void> make_delay_object(
-- 
2.43.0


From 0fecb1a0cdaed3d697ae4447aa91786999678790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 43/57] fix: set_from_function of an empty promise throws
 instead of ending the process

---
 framework/core/include/plain/concurrency/result/basic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/result/basic.h b/framework/core/include/plain/concurrency/result/basic.h
index 20af533..aff39ab 100644
--- a/framework/core/include/plain/concurrency/result/basic.h
+++ b/framework/core/include/plain/concurrency/result/basic.h
@@ -193,7 +193,7 @@ class ResultPromise {
   }
 
   template <typename CT, class ...Args>
-  void set_from_function(CT &&callable, Args &&...args) noexcept {
+  void set_from_function(CT &&callable, Args &&...args) {
     constexpr auto is_invokable = std::is_invocable_r_v<T, CT, Args...>;
 
     static_assert(
-- 
2.43.0


From 6fd4cceb9b0519c8f508cd046e7e70e57b320d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 44/57] fix: connect leaves a blocking socket blocking when it
 succeeds at once

---
 framework/core/src/net/socket/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 2e9ef7b..28ff575 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -224,11 +224,11 @@ bool connect(
   const auto connect_errno = 0;
 #endif
   bool r = e != kSocketError;
-  if (r) return r;
   if (!nonblocking && !set_nonblocking(id, false)) {
     set_error();
     return false;
   }
+  if (r) return r;
 #if OS_WIN
   if (connect_errno != WSAEINPROGRESS && connect_errno != WSAEWOULDBLOCK) {
     set_error();
-- 
2.43.0


From cbefb189be9a15c973396e5342153576d9215313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 45/57] fix: connect waits for descriptors beyond the size of a
 fd_set

---
 framework/core/src/net/socket/api.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 28ff575..15633a6 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -1,8 +1,11 @@
 #include "plain/net/socket/api.h"
 #include <errno.h>
 #if OS_UNIX || OS_MAC
+#include <poll.h>
 #include <signal.h>
 #endif
+#include <algorithm>
+#include <limits>
 #include "plain/file/api.h"
 #include "plain/basic/type/config.h"
 #include "plain/sys/utility.h"
@@ -240,6 +243,14 @@ bool connect(
     return false;
   }
 #endif
+#if OS_UNIX || OS_MAC
+  // The descriptor may be beyond what a fd_set holds.
+  pollfd poll_fd{id, POLLIN | POLLOUT, 0};
+  const auto wait_time = timeout.count() > 0 ?
+    std::min<int64_t>(timeout.count(), std::numeric_limits<int32_t>::max()) :
+    -1;
+  e = ::poll(&poll_fd, 1, static_cast<int32_t>(wait_time));
+#else
   auto read_fds = fd_set{};
   FD_ZERO(&read_fds);
   FD_SET(id, &read_fds);
@@ -255,6 +266,7 @@ bool connect(
   } else {
     e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, nullptr); 
   }
+#endif
   r = (e > 0);
   if (!r) {
     // zero return is mean timeout.
-- 
2.43.0


From 23e0546a0f1524f93328f4beafe05f18f0a4d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 46/57] fix: a signal does not end the network thread

---
 framework/core/src/net/connection/epoll.cc  | 2 ++
 framework/core/src/net/connection/select.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..e407eae 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -153,6 +153,8 @@ bool Epoll::prepare() noexcept {
 bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
+  if (impl_->data.result_event_count < 0 && errno == EINTR)
+    return true; // A signal, not an error.
   if (impl_->data.result_event_count < 0) {
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index aa692dd..dc3d8b9 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -67,6 +67,8 @@ void Select::Impl::select() noexcept {
     select_result = socket::select(
       fd_count, &read_fds.use, nullptr, &except_fds.use, nullptr);
   }
+  if (select_result < 0 && errno == EINTR)
+    select_result = 0; // A signal, not an error.
 }
 
 Select::Select(
-- 
2.43.0


From f389ade471efad80e11d1816aece98d3e88c9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 47/57] fix: a connection whose work takes the socket error is
 removed

---
 framework/core/src/net/connection/basic.cc   | 3 ++-
 framework/core/src/net/connection/manager.cc | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 5cb3a9f..a50376b 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -444,7 +444,8 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  // No test of the socket error here: testing takes it away.
+  return impl_->socket->id() == socket::kInvalidId || impl_->work_flags == 0;
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 905c757..4a8e0f1 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -177,8 +177,12 @@ void Manager::Impl::work(
       }
     });
     if (!conn) return;
-    if (!conn->valid()) return;
-    r = conn->work();
+    if (!conn->valid()) {
+      // The test has taken the error of the socket, no event tells it again.
+      if (conn->socket()->id() == socket::kInvalidId) return;
+    } else {
+      r = conn->work();
+    }
   }
   if (!r) {
     manager->remove(conn);
-- 
2.43.0


From 0029be75e2ce4f04218f51145bac6b8ec04ee345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 48/57] fix: a removed connection leaves the backend also with
 a pending socket error

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 4a8e0f1..bfbfc5c 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -413,7 +413,8 @@ void Manager::remove(
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
-- 
2.43.0


From d15a48faf01ff28470504dbdab8424979c50d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 49/57] fix: a new connection inherits nothing from the one
 that had its slot

---
 framework/core/src/net/connection/basic.cc   | 4 ++++
 framework/core/src/net/connection/manager.cc | 1 +
 2 files changed, 5 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a50376b..c4db553 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -430,6 +430,10 @@ bool Basic::init() noexcept {
     impl_->ostream->clear();
     impl_->callings.clear();
     impl_->call_index = 0;
+    impl_->error_times = 0;
+    impl_->timeout = std::nullopt;
+    impl_->codec = {};
+    impl_->dispatcher = {};
   }
   auto connect_call_key = get_callable_key(this, "__connect");
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index bfbfc5c..d50f1e2 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -427,6 +427,7 @@ void Manager::remove(
       new std::set<connection::id_t>(*impl_->connection_info.ids));
   }
   impl_->connection_info.ids->erase(conn_id);
+  impl_->conn_names.erase(conn_id);
 }
   
 void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
-- 
2.43.0


From 3358649b722ca1bf1f859a7d6615570d07e19937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 50/57] fix: a reconnected connection sends again

---
 framework/core/src/net/connection/basic.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index c4db553..346316d 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -561,6 +561,7 @@ void Basic::on_disconnect() noexcept {
     std::unique_lock<std::mutex> lock{impl_->mutex};
     impl_->istream->clear();
     impl_->ostream->clear();
+    impl_->work_flags = 0;
   }
   impl_->working.store(false, std::memory_order_relaxed);
   check_callable(this, "__disconnect");
-- 
2.43.0


From 4c1a2b8906028cb1580cc20b31da51b4c8e2ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 51/57] fix: an accepted socket that finds no owner is closed

---
 framework/core/src/net/socket/listener.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/socket/listener.cc b/framework/core/src/net/socket/listener.cc
index 7954f35..13a52ba 100644
--- a/framework/core/src/net/socket/listener.cc
+++ b/framework/core/src/net/socket/listener.cc
@@ -48,7 +48,9 @@ bool Listener::accept(std::shared_ptr<Basic> socket) {
   if (!socket_->valid()) return false;
   id_t id = socket_->accept();
   if (id == kInvalidId) return false;
-  return socket->set_id(id);
+  if (socket->set_id(id)) return true;
+  plain::net::socket::close(id);
+  return false;
 }
 
 uint32_t Listener::get_linger() const noexcept {
-- 
2.43.0


From 41743a9238d0cc779c8e2ae1d88f74fbfdf2acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 52/57] fix: the select backend refuses a listening socket
 beyond its fd_set

---
 framework/core/src/net/connection/select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index dc3d8b9..4bc2b29 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -83,6 +83,9 @@ Select::~Select() = default;
 bool Select::prepare() noexcept {
   std::unique_lock lock{impl_->mutex};
   if (listen_fd_ != socket::kInvalidId) {
+#if OS_UNIX
+    if (listen_fd_ < 0 || listen_fd_ >= FD_SETSIZE) return false;
+#endif
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
     impl_->change_vaild_fd(listen_fd_, true);
-- 
2.43.0


From a3f946051e0eb9d75546be6bbbd9874c1dc366c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 53/57] fix: a start after a failed start does not leak
 descriptors

---
 framework/core/src/net/connection/epoll.cc   | 19 ++++++++++---------
 framework/core/src/net/connection/manager.cc |  5 +++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index e407eae..51a2c42 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -30,7 +30,17 @@ struct data_struct {
 };
 using data_t = data_struct;
 
+int32_t poll_destory(data_t &d) {
+  if (d.fd == -1) return 0;
+  plain::close(d.fd);
+  safe_delete_array(d.events);
+  d.fd = -1;
+  d.events = nullptr;
+  return 0;
+}
+
 int32_t poll_create(data_t &d, int32_t max_count) {
+  poll_destory(d); // What an earlier start that failed has left.
   int32_t fd = epoll_create(max_count);
   if (fd != -1) {
     d.fd = fd;
@@ -82,15 +92,6 @@ int32_t poll_wait(data_t &d, int32_t timeout) {
   return d.result_event_count;
 }
 
-int32_t poll_destory(data_t &d) {
-  if (d.fd == -1) return 0;
-  plain::close(d.fd);
-  safe_delete_array(d.events);
-  d.fd = -1;
-  d.events = nullptr;
-  return 0;
-}
-
 /*
 int32_t poll_event(data_t &d, int32_t *fd, int32_t *events) {
   int32_t r{0};
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index d50f1e2..16a39d8 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -242,6 +242,11 @@ bool Manager::start() {
     return false;
   }
   socket::id_t fds[2]{socket::kInvalidId};
+  // A start that failed has left its descriptors.
+  if (ctrl_read_fd_ != socket::kInvalidId) socket::close(ctrl_read_fd_);
+  if (impl_->ctrl_write_fd != socket::kInvalidId)
+    socket::close(impl_->ctrl_write_fd);
+  ctrl_read_fd_ = impl_->ctrl_write_fd = socket::kInvalidId;
   if (socket::make_pair(fds)) {
     ctrl_read_fd_ = fds[0];
     impl_->ctrl_write_fd = fds[1];
-- 
2.43.0


From e7844c260d57968f80752f43cc014a69a5bf28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:26 +0000
Subject: [PATCH 54/57] fix: the select backend does not remove what it refused
 to add

---
 framework/core/src/net/connection/select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 4bc2b29..3d18214 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -174,6 +174,9 @@ bool Select::sock_add(
 bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
+#if OS_UNIX
+  if (sock_id < 0 || sock_id >= FD_SETSIZE) return false; // Was not added.
+#endif
   auto id = static_cast<uint32_t>(sock_id);
   FD_CLR(id, &impl_->read_fds.full);
   FD_CLR(id, &impl_->read_fds.use);
-- 
2.43.0


From a1cbdb413de262ea4fd9bc92df4ef048b6a82f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 55/57] fix: removing a connection keeps no reference into the
 list over its callbacks

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 16a39d8..f347cad 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -411,7 +411,8 @@ void Manager::remove(
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
   if (!impl_->connection_info.ids->contains(conn_id)) return; // Removed before.
-  auto &conn = impl_->connection_info.list[conn_id - 1];
+  // Not a reference: a callback may connect, which may make the list grow.
+  auto conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
       conn->on_disconnect();
-- 
2.43.0


From 89db385ad3192db0bac0f9b7792f4b20fbc17f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 56/57] fix: a new connection is clean also if closing the last
 one failed

---
 framework/core/src/net/connection/basic.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 346316d..4bf5390 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -421,7 +421,8 @@ Basic::~Basic() = default;
 Basic &Basic::operator=(Basic &&object) noexcept = default;
 
 bool Basic::init() noexcept {
-  if (!impl_->socket->close()) return false;
+  // The state of the last connection goes also if closing reports an error.
+  const auto r = impl_->socket->close();
   impl_->working.store(false, std::memory_order_relaxed);
   {
     std::unique_lock<std::mutex> lock{impl_->mutex};
@@ -443,7 +444,7 @@ bool Basic::init() noexcept {
     s_callables.erase(disconnect_call_key);
   }
   // if (!impl_->socket->create()) return false;
-  return true;
+  return r;
 }
 
 bool Basic::idle() const noexcept {
-- 
2.43.0


From 5541f1be00fe9d158bc8448c193e3492d9410048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 57/57] fix: closing a connection closes its descriptor also if
 the socket has an error

---
 framework/core/src/net/connection/basic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 4bf5390..b9535ce 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -459,7 +459,8 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  auto r = !impl_->socket->valid() || impl_->socket->close();
+  // Not by valid(): a socket with an error has a descriptor to close, too.
+  auto r = impl_->socket->close();
   // No response can arrive any more, so the waiters must not wait for it.
   std::unique_lock<std::mutex> lock{impl_->mutex};
   impl_->callings.clear();
-- 
2.43.0

