From 5b61a4633e5b0a8ccc2d578999a0e827aa741a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 01/54] fix: never read past the end of the input, and stop
 over-long varints before the shift overflows

---
 include/Srl/In.hpp | 10 +++++-----
 src/lib/In.cpp     |  2 +-
 src/lib/PJson.cpp  |  2 +-
 src/lib/PSrl.cpp   | 18 ++++++++----------
 4 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..9851815 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -48,7 +48,7 @@ namespace Srl { namespace Lib {
         }
         auto steps = 0U;
 
-        while(Not == this->is_at_token(tokens...)) {
+        while(this->peek(1, error), Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
         }
@@ -82,7 +82,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +90,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -116,14 +116,14 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : (size_t)(this->end - this->pos);
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..df9177c 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,25 +88,23 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
+        uint64_t block       = source.read_move<uint8_t>(error);
         uint64_t out_integer = mask_reset_msb & block;
 
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
+            block = source.read_move<uint8_t>(error);
+
+            /* no support for integers > 64 bit */
+            if(shift > 63 || (shift == 63 && block > 1)) {
+                error();
+            }
+
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
-        source.move(1, error);
-
         return out_integer;
     }
 }
-- 
2.43.0


From e29390b3da0e28654a2348ca0f186b7583617dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 02/54] fix: keep the block anchored while a stream is refilled
 more than once

---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..af41653 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    anchor = anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From 9f1786b1707806d72ec1f4919a8802b9936a91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 03/54] fix: do not allocate the length a stream merely
 declares

---
 src/lib/In.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index af41653..157acd7 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -1,6 +1,8 @@
 #include "Srl/In.h"
 #include "Srl/Lib.h"
 
+#include <algorithm>
+
 using namespace std;
 using namespace Srl;
 using namespace Lib;
@@ -63,18 +65,25 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;
 
     auto preserve_sz = this->end - (this->start + preserve_pos - margin);
-    auto bufsz = preserve_sz + read_len;
-
-    if(this->buffer.size() < bufsz) {
-        this->buffer.resize(bufsz);
-    }
 
     if(preserve_sz > 0) {
         memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);
     }
 
-    this->stream->read((char*)&this->buffer[preserve_sz], read_len);
-    auto bytes_read = (size_t)this->stream->gcount();
+    /* the requested length may come from the data itself, so don't let the buffer outgrow what actually arrives */
+    size_t bytes_read = 0, requested = 0;
+    do {
+        auto chunk = min(read_len - requested, max((size_t)1024, bytes_read));
+        requested += chunk;
+
+        if(this->buffer.size() < preserve_sz + requested) {
+            this->buffer.resize(preserve_sz + requested);
+        }
+
+        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
+        bytes_read += (size_t)this->stream->gcount();
+
+    } while(bytes_read == requested && requested < read_len);
 
     this->pos  = &this->buffer[preserve_sz - left];
     anchor = anchor ? &this->buffer[margin] : nullptr;
-- 
2.43.0


From 547b44bd28f0d7dcd3958caf5bd479b7658a305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 04/54] fix: escape JSON field names

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..d7ce27b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -107,7 +107,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From 500fd7f3632f2751b388eeee86e5031cb29b3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 05/54] fix: escape every control character in JSON strings

---
 src/lib/PJson.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index d7ce27b..35a1d34 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -28,11 +28,23 @@ namespace {
         return array<const char, 2> { { '\\', c } };
     }
 
+    constexpr array<const char, 6> uc(const char (&hex)[3])
+    {
+        return array<const char, 6> { { '\\', 'u', '0', '0', hex[0], hex[1] } };
+    }
+
     void write_escape(const MemBlock& str, Out& out)
     {
         out.write_substitute(str,
             '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f'),
+            /* remaining control characters */
+            0x00, uc("00"), 0x01, uc("01"), 0x02, uc("02"), 0x03, uc("03"), 0x04, uc("04"),
+            0x05, uc("05"), 0x06, uc("06"), 0x07, uc("07"), 0x0B, uc("0b"), 0x0E, uc("0e"),
+            0x0F, uc("0f"), 0x10, uc("10"), 0x11, uc("11"), 0x12, uc("12"), 0x13, uc("13"),
+            0x14, uc("14"), 0x15, uc("15"), 0x16, uc("16"), 0x17, uc("17"), 0x18, uc("18"),
+            0x19, uc("19"), 0x1A, uc("1a"), 0x1B, uc("1b"), 0x1C, uc("1c"), 0x1D, uc("1d"),
+            0x1E, uc("1e"), 0x1F, uc("1f")
         );
     }
 
-- 
2.43.0


From 4de6212f31ebf16ff55ae48d5547f0b9e5211dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 06/54] fix: do not count the buffer offset twice when the
 charset conversion grows its buffer

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..fa09124 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -379,8 +379,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From 088ac130b9279a54470d9972b2809658161e2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 07/54] fix: decode JSON unicode escapes big-endian and as
 surrogate pairs

---
 src/lib/PJson.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 35a1d34..d9d4ae6 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -14,13 +14,25 @@ namespace {
     };
 
     const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
-        /* skip "\u" and read 4 hex digits */
-        auto block = src.read_block(2 + 4, error);
+        uint8_t hex_buffer[4];
+        size_t  size = 0;
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        do {
+            /* skip "\u" and read 4 hex digits */
+            auto block = src.read_block(2 + 4, error);
+            if(block.ptr[0] != '\\' || block.ptr[1] != 'u') {
+                error();
+            }
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+            Tools::hex_to_bytes(hex_buffer + size, 2, block.ptr + 2, 4);
+            /* the digits are big-endian, the charset-conversion expects little-endian */
+            swap(hex_buffer[size], hex_buffer[size + 1]);
+            size += 2;
+
+            /* characters outside the basic multilingual plane are encoded as surrogate pair */
+        } while(size == 2 && (hex_buffer[1] & 0xFC) == 0xD8);
+
+        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 78dc188e30d08b6af7fdd4373271b7d2b80dfff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 08/54] fix: detect every 64 bit overflow when parsing an
 integer

---
 src/lib/ToolsStrConv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index fa09124..73e28d5 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -66,12 +66,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            tmp = c - '0';
+            if(val > (numeric_limits<uint64_t>::max() - tmp) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + tmp;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
-- 
2.43.0


From 56d2d982100f56f0e3596bbcdd9563d6f63a4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 09/54] fix: handle the smallest 64 bit integer without
 overflow

---
 src/lib/PSrl.cpp         | 8 ++++++--
 src/lib/ToolsStrConv.cpp | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index df9177c..3c10ab5 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -205,7 +205,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - value.pblock().ui64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -281,8 +281,12 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
 
     uint64_t integer = decode_integer(source);
 
+    if(flag & FSigned && integer > (uint64_t)1 << 63) {
+        error();
+    }
+
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 73e28d5..d69d9fc 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -74,7 +74,7 @@ namespace {
             val = val * 10 + tmp;
         }
 
-        bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
+        bool success = idx >= str_len && (!is_signed || val <= (uint64_t)numeric_limits<int64_t>::max() + 1);
 
         return make_tuple(val, is_signed, success);
     }
@@ -99,7 +99,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - value.pblock().ui64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
@@ -219,7 +219,7 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
         if(success) {
-            return is_signed ? make_pair(true, Value(-(int64_t)i)) : make_pair(true, Value(i));
+            return is_signed ? make_pair(true, Value((int64_t)(0 - i))) : make_pair(true, Value(i));
         }
     }
 
-- 
2.43.0


From 5905dd2021f4b913baa71fced5d0c546635a8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 10/54] fix: reject floating point values at the integer limits
 and NaN when converting to integers

---
 include/Srl/TpTools.h    | 4 +++-
 src/lib/ToolsStrConv.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..b7d0177 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -150,7 +150,9 @@ namespace Srl { namespace TpTools {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
             if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+              (val < min<T>() || val > (double)max<T>() ||
+               /* a cast of max() to double might be rounded up */
+               (std::is_integral<T>::value && !(val < (double)(max<T>() / 2 + 1) * 2)))) {
 
                 return false;
             }
diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index d69d9fc..0ba911d 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -134,7 +134,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From bbdf3f0de3d10b2edd8b51dc28e262375ad569f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 11/54] fix: keep the sign of a floating point zero in text

---
 src/lib/ToolsStrConv.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 0ba911d..319e5a5 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -134,7 +134,8 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        /* integers don't have a negative zero */
+        if(floor(val) == val && !(val == 0 && signbit(val)) && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
@@ -218,7 +219,8 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
 
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
-        if(success) {
+        /* integers don't have a negative zero */
+        if(success && !(is_signed && i == 0)) {
             return is_signed ? make_pair(true, Value((int64_t)(0 - i))) : make_pair(true, Value(i));
         }
     }
-- 
2.43.0


From e40dedcba93c3d9a7d9073313e0451e21719a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 12/54] fix: MessagePack string and binary lengths are
 big-endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..bd1a45b 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -135,12 +135,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes((uint16_t)block.size);
             out.write_byte(0xC5);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes((uint32_t)block.size);
             out.write_byte(0xC6);
             out.write(sz);
         }
@@ -162,12 +162,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes((uint16_t)block.size);
             out.write_byte(0xDA);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes((uint32_t)block.size);
             out.write_byte(0xDB);
             out.write(sz);
         }
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From 27425fb3a664bb1cab34decc63c5997c53c7e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 13/54] fix: reject MessagePack map keys that are not strings
 and the unused prefix 0xC1

---
 src/lib/PMsgPack.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index bd1a45b..5bcb2b4 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
@@ -434,7 +434,10 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+        if(!prefix_is_str(prefix)) {
+            throw Exception("Unable to parse MessagePack data. Map keys must be strings.");
+        }
+        name = read_name(prefix, this->buffer, source);
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From 5c00c05159e0ce339efafc58c3ecc6599fe1a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 14/54] fix: patch stream positions relative to where the
 output began

---
 include/Srl/Out.h   | 1 +
 include/Srl/Out.hpp | 2 +-
 src/lib/Out.cpp     | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..d827bbe 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -71,6 +71,7 @@ namespace Srl { namespace Lib {
 
         bool streaming;
         std::ostream* stream = nullptr;
+        std::streampos stream_start = 0;
         std::vector<uint8_t>* buffer = nullptr;
 
         void inc_cap          (size_t nbytes);
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..e3f44b8 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -49,7 +49,7 @@ namespace Srl { namespace Lib {
         } else {
             auto crr = this->stream->tellp();
 
-            this->stream->seekp(ticket.pos + offset);
+            this->stream->seekp(this->stream_start + (std::streamoff)(ticket.pos + offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..b3fdac4 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -12,6 +12,7 @@ void Out::set(Source source)
 
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
+    this->stream_start = source.is_stream ? source.stream->tellp() : streampos(0);
     this->buffer = !source.is_stream ? source.buffer : nullptr;
 }
 
-- 
2.43.0


From d2a6797dce533614561d5b626d5a6bacb0ca1691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 15/54] fix: the Srl writer must own the names it remembers

---
 src/lib/PSrl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 3c10ab5..59a0148 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -125,14 +125,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     auto nstrings = this->hashed_strings.num_entries();
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
+    auto* index = this->hashed_strings.get(str);
 
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the memory of the name might not outlive this call */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From 2c8499e0d5c91facd8b421d903cdba9b20f02ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 16/54] fix: stay inside the decode table and the source when
 decoding base64, and reject misplaced padding

---
 include/Srl/Resolve.hpp  |  2 +-
 src/lib/ToolsBtsConv.cpp | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..cc4537c 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -867,7 +867,7 @@ namespace Srl { namespace Lib {
             }
             uint8_t* data_dst = wrap.alloc(size);
 
-            if(size == 0) {
+            if(mem_block.size == 0) {
                 return;
             }
 
diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..463cdab 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -110,20 +110,25 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
                         " Size of source must be a multiple of 4." );
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    for(size_t in_idx = 0, out_idx = 0; in_idx < str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
-           b2 == table.val_invalid || b3 == table.val_invalid) {
+           b2 == table.val_invalid || b3 == table.val_invalid ||
+           /* only the last one or two characters can be padding */
+           b0 == table.val_fill || b1 == table.val_fill || (b2 == table.val_fill && b3 != table.val_fill) ||
+           (b3 == table.val_fill && in_idx + 4 < str_len)) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
-        dest[out_idx] = b0 << 2 | b1 >> 4;
+        if(out_idx < dest_size) {
+            dest[out_idx] = b0 << 2 | b1 >> 4;
+        }
         /* PPPPPP PP[BBBB BBBB]BB BBBBBB */
         if(out_idx + 1 < dest_size) {
             dest[out_idx + 1] = b1 << 4 | b2 >> 2;
-- 
2.43.0


From 4c9a7331005c6954e80425f3eaa19fa44972c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 17/54] fix: do not write past a VecWrap whose data is not a
 multiple of its element size

---
 include/Srl/BitWrap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..2296d49 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -3,6 +3,7 @@
 
 #include "Blocks.h"
 #include "Common.h"
+#include "Exception.h"
 #include "Srl/Resolve.h"
 
 #include <functional>
@@ -42,6 +43,9 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
+                    if(sz % sizeof(T) != 0) {
+                        throw Exception("Unable to restore VecWrap. Size of data is not a multiple of the element size.");
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From 15c7744a7b59bec615d5fc1b0ba5b28bbce39b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 18/54] fix: terminate converted character arrays where the
 converted text ends, and bound their length in characters

---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index cc4537c..497aa29 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From c3d72ae69d3a04346d733586cae5cc591cb74f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 19/54] fix: do not leave a deleted pointer behind when
 restoring its object fails

---
 include/Srl/Resolve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 497aa29..b98035b 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -457,6 +457,7 @@ namespace Srl { namespace Lib {
 
             if(o != nullptr) {
                 delete o;
+                o = nullptr;
             }
 
             auto uptr = Lib::registrations()->create<U>(type_id);
@@ -706,6 +707,7 @@ namespace Srl { namespace Lib {
 
             if(p != nullptr) {
                 delete p;
+                p = nullptr;
             }
 
             auto val_type = item.type();
-- 
2.43.0


From fb644969fa6a30a2fb48f754bc32d13e8a5e6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 20/54] fix: restore an empty unique_ptr as empty

---
 include/Srl/Resolve.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index b98035b..95a9463 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -738,7 +738,9 @@ namespace Srl { namespace Lib {
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
             E* content = nullptr;
-            Apply(content, item, id);
+            if(item.type() != Type::Null) {
+                Apply(content, item, id);
+            }
             p = T(content);
         }
 
-- 
2.43.0


From 99e3ff409588dc75ae8a3f7b533356d02cfb6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 21/54] fix: unpacking a Union must not drop the fields that
 follow it

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 95a9463..6d7d956 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From 31c748f9fbf5c12d85bedc44aa706b44c84dc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 22/54] fix: skip unknown fields up to the end of their own
 scope

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..da6db7d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From a2f5fcd44883cd41887f454210b1ade84d18adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 23/54] fix: report an out of bounds index instead of
 dereferencing null

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index da6db7d..53c8804 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From 6ff3a4bf7a21abaac5951903b6157822a037851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 24/54] fix: write out a Node that was never inserted

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 53c8804..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From bf70611412faa4f2963f194ac42e83ffdb9a7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 25/54] fix: ScopeWrap must own its function

---
 include/Srl/ScopeWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/ScopeWrap.h b/include/Srl/ScopeWrap.h
index a6b6f6f..e91642d 100644
--- a/include/Srl/ScopeWrap.h
+++ b/include/Srl/ScopeWrap.h
@@ -23,7 +23,7 @@ namespace Srl {
 
     private:
         const Type scope_type;
-        const std::function<void(Node&)>& fn_insert;
+        const std::function<void(Node&)> fn_insert;
 
     };
 }
-- 
2.43.0


From 9d8c8dd0ce7b2b49b7dcfd25fc13b96bf81f9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 26/54] fix: a moved HTable must take its memory along

---
 include/Srl/Hash.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..cad8094 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,9 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->heap      = std::move(m.heap);
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From 891108457ae0332d3325235013b60944e927b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 27/54] fix: a store that throws must not leave the Tree in
 writing mode

---
 include/Srl/Environment.h | 7 +++++++
 include/Srl/Tree.hpp      | 3 +--
 src/lib/Tree.cpp          | 3 +--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..6460458 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -56,6 +56,13 @@ namespace Lib {
 
         Parser*   parser  = nullptr;
         bool      parsing = false;
+
+        /* sets the parsing-flag as long as the scope lasts, even if an exception leaves it */
+        struct ParsingScope {
+            ParsingScope(Environment& env_) : env(env_) { env.parsing = true; }
+            ~ParsingScope() { env.parsing = false; }
+            Environment& env;
+        };
         Lib::In   in;
         Lib::Out  out;
 
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..7c63510 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,7 +56,7 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
+        Lib::Environment::ParsingScope parsing_scope(*this->env);
 
         this->env->write(Value(Type::Object), "");
 
@@ -64,7 +64,6 @@ namespace Srl {
 
         this->env->write(Value(Type::Scope_End), "");
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..7b8afcf 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,7 +55,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
+    Environment::ParsingScope parsing_scope(*this->env);
 
     auto& name = this->root_node->name();
     this->env->write(Value(type), name);
@@ -64,7 +64,6 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
 
     this->env->write(Value(Type::Scope_End), name);
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From aa8423ccd1e19d3c660dbcf27f3762d861015b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 28/54] fix: load_object must not inherit the root type of
 earlier content

---
 include/Srl/Tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 7c63510..7ff2b09 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -160,6 +160,8 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        /* the root might still have the type of a previous content */
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From d3c90d7cba73c5374fdd6c8a3f365ad52e444296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 29/54] fix: a Tree must not read from a parser that is gone
 after restoring

---
 include/Srl/Tree.h   |  6 ++++++
 include/Srl/Tree.hpp |  2 +-
 src/lib/Tree.cpp     | 13 ++++++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Tree.h b/include/Srl/Tree.h
index 7d890d1..7b4e0e1 100644
--- a/include/Srl/Tree.h
+++ b/include/Srl/Tree.h
@@ -76,6 +76,12 @@ namespace Srl {
 
         Node* root_node = nullptr;
 
+        struct ReadingScope {
+            ReadingScope(Node& root_);
+            ~ReadingScope();
+            Node& root;
+        };
+
         void to_source(Type type, Parser& parser, Lib::Out::Source out, const std::function<void()>& store_switch);
 
         void read_source (Parser& parser, Lib::In::Source source);
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 7ff2b09..1bb9d20 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -72,7 +72,7 @@ namespace Srl {
     {
         this->prologue_in(parser, in);
 
-        this->root_node->parsed = false;
+        ReadingScope reading_scope(*this->root_node);
 
         this->root_node->paste(items...);
     }
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 7b8afcf..68e0077 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -5,6 +5,17 @@ using namespace std;
 using namespace Srl;
 using namespace Lib;
 
+Tree::ReadingScope::ReadingScope(Node& root_) : root(root_)
+{
+    this->root.parsed = false;
+}
+
+/* the parser doesn't outlive the call it was passed to, so what it left unread can't be read anymore */
+Tree::ReadingScope::~ReadingScope()
+{
+    this->root.parsed = true;
+}
+
 Tree::Tree(Tree&& g)
 {
     *this = forward<Tree>(g);
@@ -76,7 +87,7 @@ void Tree::read_source(Parser& parser, In::Source source)
 void Tree::read_source(Parser& parser, In::Source source, const function<void()>& restore_switch)
 {
     prologue_in(parser, source);
-    this->root_node->parsed = false;
+    ReadingScope reading_scope(*this->root_node);
 
     restore_switch();
 }
-- 
2.43.0


From 79b9aab981d0ddc8fb7ea0b397922540f406febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 30/54] fix: every store must write the shared objects it
 refers to

---
 include/Srl/Environment.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 6460458..958e26c 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -59,9 +59,16 @@ namespace Lib {
 
         /* sets the parsing-flag as long as the scope lasts, even if an exception leaves it */
         struct ParsingScope {
-            ParsingScope(Environment& env_) : env(env_) { env.parsing = true; }
-            ~ParsingScope() { env.parsing = false; }
+            ParsingScope(Environment& env_)
+                : env(env_), tree_table(std::move(env_.shared_table_store)) { env.parsing = true; }
+            ~ParsingScope()
+            {
+                env.parsing = false;
+                env.shared_table_store = std::move(tree_table);
+            }
             Environment& env;
+            /* what is written and what is in the tree don't share any objects */
+            HTable<const void*, size_t> tree_table;
         };
         Lib::In   in;
         Lib::Out  out;
-- 
2.43.0


From 61c61386bf9f2dd588b9babc583bdae338277b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 31/54] fix: a shared object must only be restored as the type
 it was created with

---
 include/Srl/Environment.h |  3 ++-
 include/Srl/Node.h        |  3 ++-
 include/Srl/Resolve.hpp   |  2 +-
 src/lib/Node.cpp          | 15 ++++++++++-----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 958e26c..263d875 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -9,6 +9,7 @@
 #include "Out.h"
 
 #include <list>
+#include <typeinfo>
 
 namespace Srl {
 
@@ -49,7 +50,7 @@ namespace Lib {
         HTable<String, String> str_table;
 
         HTable<const void*, size_t>           shared_table_store   { 16 };
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        HTable<size_t, std::pair<std::shared_ptr<void>, const std::type_info*>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..a95c539 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -127,7 +127,8 @@ namespace Srl {
                          Type node_type, const String& name, const Args&... args);
 
         std::pair<bool, uint64_t> insert_shared (const void* obj);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::type_info& type,
+                                                             const std::function<std::shared_ptr<void>(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 6d7d956..55afd67 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -789,7 +789,7 @@ namespace Srl { namespace Lib {
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
             bool inserted_new; std::shared_ptr<void>* sptr;
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
+            std::tie(inserted_new, sptr) = node.find_shared(key, typeid(E), [&p, &node] {
                 E* e = nullptr;
                 Apply(e, node);
                 p = std::shared_ptr<E>(e);
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ca870eb..8a9e6be 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -544,18 +544,23 @@ pair<bool, uint64_t> Node::insert_shared (const void* obj)
     return { exists, *key };
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const type_info& type,
+                                                const function<shared_ptr<void>(void)>& create)
 {
     auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
+    auto* entry = table.get(key);
     bool inserted_new = false;
 
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
+    if(!entry) {
+        entry = table.insert(key, create(), &type).second;
         inserted_new = true;
+
+    /* the key is part of the data, which might not be trustworthy */
+    } else if(*entry->second != type) {
+        throw Exception("Unable to restore shared object. Type mismatch.");
     }
 
-    return { inserted_new, sptr };
+    return { inserted_new, &entry->first };
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From 329c986b0a6d9ed2185811b041cf7bd937404fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 32/54] fix: only create registered classes that derive from
 the type to be restored

---
 include/Srl/Registration.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..c24061f 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -14,13 +14,21 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Make {
+                std::function<void*(void)>  create;
+                std::function<void(void*)>  destroy;
+                std::function<void(void*)>  cast; /* throws the pointer as the type it was created with */
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                bool exists = this->insert(id, {
+                    [] { return Ctor<T>::Create_New().release(); },
+                    [] (void* p) { delete (T*)p; },
+                    [] (void* p) { throw (T*)p; }
+                });
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -36,8 +44,17 @@ namespace Srl {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
-                return std::unique_ptr<T>(ptr);
+                auto* ptr = make->create();
+
+                /* a handler for base class pointers is the only way to find out if T is one */
+                try {
+                    make->cast(ptr);
+                } catch(T* casted) {
+                    return std::unique_ptr<T>(casted);
+                } catch(...) { }
+
+                make->destroy(ptr);
+                throw Exception("Class id " + id.unwrap(false) + " is not of the requested type.");
             }
 
         private:
-- 
2.43.0


From 24107536789c02ea183c97b8d59fb049a151113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 33/54] fix: apply the nesting limit to recursive types too

---
 include/Srl/Node.h |  2 ++
 src/lib/Node.cpp   | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index a95c539..e248103 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -121,6 +121,7 @@ namespace Srl {
 
         Type          scope_type;
         bool          parsed;
+        int           depth = 0; /* nesting of a node which is read while it is restored */
 
         template<class... Args>
         void open_scope (void (*Insert)(Node& node, const Args&... args),
@@ -138,6 +139,7 @@ namespace Srl {
         void  read_source (int scope_depth = 0);
 
         void  consume_scope ();
+        Node  unread_node   (Type type);
         Node  consume_node  (bool throw_ex, const String& name);
         Value consume_value (bool throw_ex, const String& name);
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 8a9e6be..778ff4f 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -276,6 +276,18 @@ void Node::read_source(int scope_depth)
     }
 }
 
+Node Node::unread_node(Type type)
+{
+    Node node(this->env->tree, type, false);
+    node.depth = this->depth + 1;
+
+    if(node.depth > MAX_SAFE_NESTED_SCOPE_DEPTH) {
+        throw Exception("Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + "] exceeded");
+    }
+
+    return node;
+}
+
 Union Node::consume_item(const String& id, bool throw_err)
 {
     auto* storednode = find_link<Name>(id, this->nodes);
@@ -306,7 +318,7 @@ Union Node::consume_item(const String& id, bool throw_err)
 
         if(TpTools::is_scope(tp)) {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(this->depth + 1);
             if(link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
@@ -352,11 +364,11 @@ Node Node::consume_node(bool throw_ex, const String& id)
 
         if(TpTools::is_scope(tp)) {
             if(compare(id_conv, seg_name)) {
-                return Node(this->env->tree, tp, false);
+                return this->unread_node(tp);
             }
 
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(this->depth + 1);
 
         } else {
             this->env->store_value(*this, val, seg_name);
@@ -403,7 +415,7 @@ Value Node::consume_value(bool throw_ex, const String& id)
 
         } else {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(this->depth + 1);
         }
     }
 
@@ -438,7 +450,7 @@ Node Node::consume_node(bool throw_ex, size_t)
         }
 
         if(TpTools::is_scope(tp)) {
-            Node node(this->env->tree, tp, false);
+            auto node = this->unread_node(tp);
             node.name_ptr = this->env->store_string(seg_name).first;
 
             return node;
@@ -482,7 +494,7 @@ Value Node::consume_value(bool throw_ex, size_t)
 
         } else {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(this->depth + 1);
         }
     }
 
-- 
2.43.0


From a2726647192e12e9ade33160ab72538443fee2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 34/54] fix: restore empty pointers to objects as empty

---
 include/Srl/Node.h    |  4 ++++
 include/Srl/Node.hpp  |  7 +++++++
 include/Srl/Resolve.h | 10 ++++++++++
 src/lib/Node.cpp      | 18 ++++++++++++++++++
 4 files changed, 39 insertions(+)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index e248103..9c807e2 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -148,6 +148,10 @@ namespace Srl {
 
         Union consume_item(const String& name, bool throw_err = true);
 
+        /* pointers to scopes are stored as null-value if they are empty */
+        bool take_null (const String& name);
+        bool take_null (size_t) { return false; }
+
         template<class T>
         typename std::enable_if<!TpTools::is_scope(Lib::Switch<T>::type), Value>::type
         consume_item();
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..910b490 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -106,6 +106,13 @@ namespace Srl {
     typename std::enable_if<!std::is_same<T, Srl::Union>::value && TpTools::is_scope(Lib::Switch<T>::type), void>::type
     Node::paste_field (const ID& fieldID, T& o)
     {
+        if constexpr (Lib::is_pointer_like<T>::value) {
+            if(this->take_null(fieldID)) {
+                Lib::Aux::reset_pointer(o);
+                return;
+            }
+        }
+
         if(this->parsed) {
             Lib::Switch<T>::Paste(o, this->node(fieldID), fieldID);
 
diff --git a/include/Srl/Resolve.h b/include/Srl/Resolve.h
index 8ea8896..7f2e5f0 100644
--- a/include/Srl/Resolve.h
+++ b/include/Srl/Resolve.h
@@ -134,6 +134,16 @@ namespace Lib {
         static const bool value = true;
     };
 
+    template<class T> struct is_pointer_like {
+        static const bool value = std::is_pointer<T>::value || is_unique_ptr<T>::value ||
+                                  is_shared_ptr<T>::value || is_weak_ptr<T>::value;
+    };
+
+    namespace Aux {
+        template<class T> void reset_pointer (T*& p) { delete p; p = nullptr; }
+        template<class T> void reset_pointer (T& p)  { p = T(); }
+    }
+
     template<class T> struct is_basic_string {
         static const bool value = false;
     };
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 778ff4f..adbbec3 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -338,6 +338,24 @@ Union Node::consume_item(const String& id, bool throw_err)
     return Union();
 }
 
+bool Node::take_null(const String& id)
+{
+    if(!this->parsed) {
+        this->consume_item(id, false);
+    }
+
+    auto itr = find_link_iterator(id, this->values, *this->env);
+    if(itr == this->values.end() || itr->field.type() != Type::Null) {
+        return false;
+    }
+
+    if(!this->parsed) {
+        this->values.erase(itr);
+    }
+
+    return true;
+}
+
 Node Node::consume_node(bool throw_ex, const String& id)
 {
     auto stored_itr = find_link_iterator(id, this->nodes, *this->env);
-- 
2.43.0


From 2dc3ece84eaf4e7003c1203a481f4f36ecf61c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 35/54] fix: upsert must not destroy the current value before
 the new one exists

---
 include/Srl/Hash.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index cad8094..16dde88 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -179,8 +179,16 @@ namespace Srl { namespace Lib {
 
                 if(update_on_dup) {
 
-                    this->destroy_item(entry->val);
-                    new (&entry->val) V(std::forward<Args>(args)...);
+                    if constexpr (std::is_move_constructible<V>::value) {
+                        /* might throw or refer to the current value */
+                        V val(std::forward<Args>(args)...);
+                        this->destroy_item(entry->val);
+                        new (&entry->val) V(std::move(val));
+
+                    } else {
+                        this->destroy_item(entry->val);
+                        new (&entry->val) V(std::forward<Args>(args)...);
+                    }
                 }
 
                 return { true, &entry->val };
-- 
2.43.0


From 6d1f9b7789f32e5b5130f2169b6ee570597d6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 36/54] fix: count what remove_if removed even if its predicate
 throws

---
 include/Srl/Hash.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 16dde88..37ffcb0 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -295,7 +295,7 @@ namespace Srl { namespace Lib {
         }
 
         auto n = 0U;
-        auto n_deleted = 0U;
+        const auto total = this->elements;
 
         for(auto i = 0U; i < this->cap; i++) {
 
@@ -309,7 +309,7 @@ namespace Srl { namespace Lib {
 
                 if(do_rm) {
 
-                    n_deleted++;
+                    this->elements--;
 
                     if(prev) {
                         prev->next = entry->next;
@@ -329,12 +329,10 @@ namespace Srl { namespace Lib {
                 entry = entry->next;
             }
 
-            if(n >= this->elements) {
+            if(n >= total) {
                 break;
             }
         }
-
-        this->elements -= n_deleted;
     }
 
 
-- 
2.43.0


From 91e67faf59743cef71473d6fc67b48d3fe88429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 37/54] fix: do not read text through a misaligned pointer when
 no conversion is needed

---
 include/Srl/Tools.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Tools.hpp b/include/Srl/Tools.hpp
index 55e2ed7..ad72bad 100644
--- a/include/Srl/Tools.hpp
+++ b/include/Srl/Tools.hpp
@@ -15,10 +15,10 @@ namespace Srl { namespace Tools {
         auto target_encoding = Lib::get_encoding<TChar>();
 
         if(str_wrap.encoding() == target_encoding) {
-            return std::basic_string<TChar>(
-                reinterpret_cast<const TChar*>(str_wrap.data()),
-                str_wrap.size() / sizeof(TChar)
-            );
+            /* the source is not necessarily aligned */
+            std::basic_string<TChar> str(str_wrap.size() / sizeof(TChar), TChar());
+            memcpy(&str[0], str_wrap.data(), str.size() * sizeof(TChar));
+            return str;
         }
 
         std::vector<uint8_t> converted = conv_charset(target_encoding, str_wrap, throw_error);
-- 
2.43.0


From 723007093a836a9223b25a3e19fef822c39ffbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 38/54] fix: giving memory back must not need memory,
 destructors do it

---
 src/lib/Heap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..31d3f3e 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -153,8 +153,16 @@ Aux::SList<T>::find_rm(const Predicate& pred)
 
 void Heap::put_mem(uint8_t* mem, size_t sz)
 {
+    SegLink* link;
+
+    try {
+        link = this->chain.get_link();
+
+    } catch(const bad_alloc&) {
+        /* called by destructors: the memory stays unused until the heap is cleared */
+        return;
+    }
 
-    auto* link = this->chain.get_link();
     set_subsegment(link->val, mem, sz);
 
     this->chain.free_segs.append(link);
-- 
2.43.0


From b68bccf2b4d117d220e614813ce5050d8fa8815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 39/54] fix: do not hand out the rest of a segment twice after
 an allocation failed

---
 src/lib/Heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 31d3f3e..e1f4b46 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -197,6 +197,8 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        /* the rest is a free segment now, it must not be used twice if the allocation fails */
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
-- 
2.43.0


From 5d7a341213b95a5e5f192db9725bc2e80035beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 40/54] fix: a hash table that cannot grow stays as it is

---
 include/Srl/Hash.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 37ffcb0..6d8b4f2 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -53,16 +53,15 @@ namespace Srl { namespace Lib {
     {
         if(this->limit == 0) {
             /* initial allocation */
+            this->table = this->alloc_table(std::max((size_t)1, this->cap));
             this->set_capacity(this->cap);
-            this->table = this->alloc_table(this->cap);
 
             return;
         }
 
         auto old_dim = this->cap;
-        this->set_capacity(this->cap * 2);
-
-        auto* ntable = alloc_table(this->cap);
+        auto* ntable = alloc_table(old_dim * 2);
+        this->set_capacity(old_dim * 2);
 
         for(auto i = 0U; i < old_dim; i++) {
             auto* entry = table[i];
@@ -241,7 +240,7 @@ namespace Srl { namespace Lib {
     typename HTable<K, V, H>::Entry** HTable<K, V, H>::alloc_table(size_t sz)
     {
         Entry** tbl = this->heap.template get_mem<Entry*>(sz);
-        memset(tbl, 0, this->cap * sizeof(nullptr));
+        memset(tbl, 0, sz * sizeof(nullptr));
         return tbl;
     }
 
-- 
2.43.0


From 2185a454f3b2654a9552217e5392008ca98a075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 41/54] fix: count an entry as removed before anything can
 throw

---
 include/Srl/Hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 6d8b4f2..aceac17 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -342,9 +342,9 @@ namespace Srl { namespace Lib {
         auto* entry = get_rm(key, hash);
 
         if(entry) {
+            elements--;
             destroy_item<Entry>(*entry);
             this->mem_cache.push_back(entry);
-            elements--;
         }
     }
 
@@ -356,11 +356,12 @@ namespace Srl { namespace Lib {
 
         if(entry) {
 
+            elements--;
+
             V res = std::move(entry->val);
             destroy_item<Entry>(*entry);
 
             this->mem_cache.push_back(entry);
-            elements--;
 
             return res;
         }
-- 
2.43.0


From 9d58b5ee2861c4dd22147230053e26022162e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 42/54] fix: a tree whose root cannot be created has no
 environment

---
 include/Srl/Tree.h |  1 +
 src/lib/Tree.cpp   | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Tree.h b/include/Srl/Tree.h
index 7b4e0e1..511c08b 100644
--- a/include/Srl/Tree.h
+++ b/include/Srl/Tree.h
@@ -89,6 +89,7 @@ namespace Srl {
 
         void prologue_in(Parser& parser, Lib::In::Source& source);
         void create_env(Srl::Type root_node_tp = Srl::Type::Object);
+        void create_root(Srl::Type type);
         Lib::Environment& get_env();
 
         template<class Object>
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 68e0077..c830fd0 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -121,7 +121,20 @@ void Tree::clear()
     auto rtp = this->root().scope_type;
 
     this->env->clear();
-    this->root_node = &env->create_node(rtp, "")->field;
+    this->create_root(rtp);
+}
+
+void Tree::create_root(Type tp)
+{
+    try {
+        this->root_node = &this->env->create_node(tp, "")->field;
+
+    } catch(...) {
+        /* there is no environment without a root */
+        this->env = nullptr;
+        this->root_node = nullptr;
+        throw;
+    }
 }
 
 void Tree::create_env(Type tp)
@@ -133,7 +146,7 @@ void Tree::create_env(Type tp)
     }
 
     this->env = unique_ptr<Environment>(new Environment(*this));
-    this->root_node = &env->create_node(tp, "")->field;
+    this->create_root(tp);
 }
 
 Environment& Tree::get_env()
-- 
2.43.0


From 9486ef56ea689c3ece00b1f44bde8ecd66e0abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 43/54] fix: link a value only once its data is copied

---
 src/lib/Environment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 3b3013a..d461cb7 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -132,14 +132,15 @@ Link<Node>* Environment::create_node(Type type, const String& name)
 
 Link<Value>* Environment::store_value(Node& parent, const Value& value, const String& name)
 {
-    auto* link = this->create_link(parent.values, value, name);
-    auto& block = link->field.block;
+    /* nothing is linked which refers to memory of others, even if there is no memory for the copy */
+    Value stored = value;
+    auto& block = stored.block;
 
     if(!block.stored_local && !block.try_store_local()) {
         block.extern_data = Aux::copy(this->heap, { block.extern_data, block.size }).ptr;
     }
 
-    return link;
+    return this->create_link(parent.values, stored, name);
 }
 
 void Environment::write(const Value& value, const String& field_name)
-- 
2.43.0


From 813a76c996a8cee26ab0d0d4a04e4cab7f82f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 44/54] fix: close the iconv descriptor if the conversion runs
 out of memory

---
 src/lib/ToolsStrConv.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 319e5a5..993791d 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -298,6 +298,12 @@ namespace {
 
         return rslt;
     }
+
+    /* closes the descriptor on every way out of the conversion, also if growing the buffer fails */
+    struct Descriptor {
+        iconv_t desc;
+        ~Descriptor() { iconv_close(this->desc); }
+    };
 }
 
 size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
@@ -337,6 +343,7 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
         return 0;
     }
+    Descriptor guard { desc };
 
     size_t left_in = str_wrap.size();
     size_t reserve = left_in * (
@@ -361,7 +368,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EINVAL) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Incomplete byte sequence.");
             }
@@ -369,7 +375,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EILSEQ) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Invalid byte sequence.");
             }
@@ -386,7 +391,5 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
     }
 
-    iconv_close(desc);
-
     return buffer.size() - buffer_index - left_out;
 }
-- 
2.43.0


From f569121f6a1b76abeac4b5d0e886ab4b6c5c80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 45/54] fix: search free memory of the arena by size instead of
 passing segments that are too small over and over

---
 include/Srl/Heap.h |  8 +++++++-
 src/lib/Heap.cpp   | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..098218a 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -77,8 +77,14 @@ namespace Srl { namespace Lib {
 
         struct Chain {
 
+            /* free segments of similar sizes share a list, so that segments which
+             * are too small don't have to be skipped over and over */
+            static const size_t N_Classes = 20;
+
+            static size_t size_class(size_t sz);
+
             Aux::SList<Segment> used_segs;
-            Aux::SList<Segment> free_segs;
+            Aux::SList<Segment> free_segs[N_Classes];
 
             Aux::SList<Aux::SList<Segment>::Link> used_links;
             Aux::SList<Aux::SList<Segment>::Link> free_links;
diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index e1f4b46..ad65790 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -165,17 +165,33 @@ void Heap::put_mem(uint8_t* mem, size_t sz)
 
     set_subsegment(link->val, mem, sz);
 
-    this->chain.free_segs.append(link);
+    this->chain.free_segs[Chain::size_class(sz)].append(link);
 }
 
 Heap::Segment* Heap::find_free_seg(size_t sz, size_t align)
 {
-    auto* link = this->chain.free_segs.find_rm(Size(sz, align));
+    for(auto c = Chain::size_class(sz); c < Chain::N_Classes; c++) {
 
-    if(link) {
-        this->chain.used_segs.append(link);
+        auto* link = this->chain.free_segs[c].find_rm(Size(sz, align));
+
+        if(link) {
+            this->chain.used_segs.append(link);
+            return &link->val;
+        }
     }
-    return link ? &link->val : nullptr;
+
+    return nullptr;
+}
+
+size_t Heap::Chain::size_class(size_t sz)
+{
+    size_t c = 0;
+
+    while((sz >>= 1) > 0 && c < N_Classes - 1) {
+        c++;
+    }
+
+    return c;
 }
 
 SegLink* Heap::Chain::get_link()
@@ -201,7 +217,7 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
         this->crr_seg = nullptr;
     }
 
-    if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
+    if((seg = find_free_seg(n, align))) {
         return seg;
     }
 
@@ -227,7 +243,10 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 void Heap::clear()
 {
     this->chain.used_segs.clear();
-    this->chain.free_segs.clear();
+
+    for(auto& segs : this->chain.free_segs) {
+        segs.clear();
+    }
 
     ChainLink* link = this->chain.used_links.front;
     ChainLink* prev = nullptr;
@@ -242,7 +261,9 @@ void Heap::clear()
         } else {
             prev = link;
             reset_segment(link->val);
-            this->chain.free_segs.prepend(Size(link->val.val.size, 1), &link->val);
+
+            auto& segs = this->chain.free_segs[Chain::size_class(link->val.val.size)];
+            segs.prepend(Size(link->val.val.size, 1), &link->val);
         }
 
         link = next;
-- 
2.43.0


From 3f50352af8d6f1d3645a497d009396660984d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 46/54] fix: count bytes of documents beyond 4 GiB in size_t

---
 include/Srl/In.hpp  | 4 ++--
 include/Srl/Out.hpp | 2 +-
 src/lib/Out.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 9851815..664293d 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -46,7 +46,7 @@ namespace Srl { namespace Lib {
         if(!this->pos) {
             error();
         }
-        auto steps = 0U;
+        size_t steps = 0;
 
         while(this->peek(1, error), Not == this->is_at_token(tokens...)) {
             this->move(1, error);
@@ -113,7 +113,7 @@ namespace Srl { namespace Lib {
     {
         const size_t max = Aux::max_len<Tokens...>();
 
-        auto steps = 0U;
+        size_t steps = 0;
         auto bufsz = buf.size();
 
         while(*this->peek(1, error) != delimiter) {
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index e3f44b8..4ed67a4 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -90,7 +90,7 @@ namespace Srl { namespace Lib {
     template<class... Tokens>
     void Out::write_substitute(const Lib::MemBlock& data, const Tokens&... tokens)
     {
-        for(auto i = 0U; i < data.size; i++) {
+        for(size_t i = 0; i < data.size; i++) {
             this->substitute_token(*(data.ptr + i), tokens...);
         }
     }
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index b3fdac4..f320029 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -54,7 +54,7 @@ void Out::write_to_buffer()
 
     this->buffer->resize(this->state.sz_total);
 
-    auto pos = 0U;
+    size_t pos = 0;
     auto* seg = this->heap.chain.used_segs.front;
 
     while(seg) {
-- 
2.43.0


From 454eb50152dd4195a4097deb81966f6727edb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 47/54] fix: refuse single values of more than 4 GiB instead of
 cutting them

---
 include/Srl/Blocks.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Blocks.h b/include/Srl/Blocks.h
index 436c60d..5924cd8 100644
--- a/include/Srl/Blocks.h
+++ b/include/Srl/Blocks.h
@@ -2,6 +2,7 @@
 #define SRL_BLOCKS_H
 
 #include "Common.h"
+#include "Exception.h"
 #include "Enums.h"
 #include "Type.h"
 
@@ -28,7 +29,16 @@ namespace Srl { namespace Lib {
                 : ui64(0), size(sz), type(type_), encoding(encoding_) { }
 
             PackedBlock(const Lib::MemBlock& block, Type type_, Encoding encoding_)
-                : extern_data(block.ptr), size(block.size), type(type_), encoding(encoding_) { }
+                : extern_data(block.ptr), size(checked_size(block.size)), type(type_), encoding(encoding_) { }
+
+            static uint32_t checked_size(size_t sz)
+            {
+                if(sz > UINT32_MAX) {
+                    throw Exception("Unable to process data of more than 4 GiB in a single value.");
+                }
+
+                return (uint32_t)sz;
+            }
 
             union {
                 uint8_t        local_data[8];
-- 
2.43.0


From c914b6bbc113be8f35af11116e2f63c3e48fdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 48/54] fix: copies of VecWrap restore through themselves
 instead of the wrapper they were copied from

---
 include/Srl/BitWrap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index 2296d49..22f8d2c 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -52,6 +52,9 @@ namespace Srl {
                 })
         {  }
 
+        /* the alloc function refers to the wrapper it belongs to */
+        VecWrap(const VecWrap& wrap) : VecWrap(*wrap.vec) {  }
+
         std::vector<T>* vec;
         BitWrap         bitwrap;
     };
-- 
2.43.0


From 4a392e67857ebce6aeccf9243c5dfca6c9253563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 49/54] fix: keep the elements of an initializer list in its
 array when it is inserted while writing a document

---
 include/Srl/Node.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 910b490..149f00f 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -26,6 +26,16 @@ namespace Srl {
     template<class T>
     Node& Node::insert(const String& field_name, const std::initializer_list<T>& elements)
     {
+        if(this->env->parsing) {
+            this->env->write(Value(Type::Array), field_name);
+            for(auto& e : elements) {
+               this->insert(e);
+            }
+            this->env->write(Value(Type::Scope_End), field_name);
+
+            return *this;
+        }
+
         auto& new_node = this->insert_node(Type::Array, field_name);
         for(auto& e : elements) {
            new_node.insert(e);
-- 
2.43.0


From 35ca84e49274496cfeb2d3806886e2a756d165e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 50/54] fix: read numbers alike whatever locale the program has
 set

---
 src/lib/ToolsStrConv.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 993791d..c280aa6 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -6,6 +6,11 @@ extern "C" {
 
 #include <limits>
 #include <cmath>
+#include <cstdlib>
+#include <locale.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
 
 using namespace std;
 using namespace Srl;
@@ -20,6 +25,9 @@ namespace {
 
     tuple<double, bool> str_to_double(const uint8_t* str, size_t str_len)
     {
+        /* numbers look the same in any locale the program might use */
+        static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", nullptr);
+
         const size_t buffer_size = 64;
         char buffer[buffer_size];
 
@@ -29,7 +37,7 @@ namespace {
             char* end = nullptr;
             memcpy(ptr_mem, str, str_len);
             ptr_mem[str_len] = '\0';
-            val = strtod(ptr_mem, &end);
+            val = strtod_l(ptr_mem, &end, c_locale);
 
             return end == ptr_mem + str_len;
         };
-- 
2.43.0


From 5fff6cb476918660d11c29d01ff4c46c6b3d4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 51/54] fix: reset optional pointers to objects which are null
 in the document

---
 include/Srl/Context.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Srl/Context.hpp b/include/Srl/Context.hpp
index 9fc4acf..bb0aa1f 100644
--- a/include/Srl/Context.hpp
+++ b/include/Srl/Context.hpp
@@ -70,6 +70,11 @@ namespace Srl {
                 ? context_node->has_node(name)
                 : context_node->has_value(name);
 
+            if constexpr(TpTools::is_scope(Lib::Switch<T>::type) && Lib::is_pointer_like<T>::value) {
+                /* empty pointers to scopes are stored as null values */
+                has = has || (context_node->has_value(name) && context_node->value(name).type() == Type::Null);
+            }
+
             if(!has) {
                 return;
             }
-- 
2.43.0


From dbfbb5de79183176ec6d73256f25bc915cd827f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:24 +0000
Subject: [PATCH 52/54] fix: tell shared objects which live only while they are
 inserted from others at the same address

---
 include/Srl/Environment.h | 16 +++++++++++++---
 include/Srl/Node.h        |  2 +-
 include/Srl/Resolve.hpp   |  2 +-
 src/lib/Environment.cpp   |  1 +
 src/lib/Node.cpp          | 15 +++++++++++----
 5 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 263d875..7b47e47 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -49,7 +49,11 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
+        /* key and owner of the objects, another object might get the address of one which is gone */
+        typedef HTable<const void*, std::pair<size_t, std::weak_ptr<const void>>> SharedTable;
+
+        SharedTable shared_table_store { 16 };
+        size_t      shared_keys = 0;
         HTable<size_t, std::pair<std::shared_ptr<void>, const std::type_info*>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
@@ -61,15 +65,21 @@ namespace Lib {
         /* sets the parsing-flag as long as the scope lasts, even if an exception leaves it */
         struct ParsingScope {
             ParsingScope(Environment& env_)
-                : env(env_), tree_table(std::move(env_.shared_table_store)) { env.parsing = true; }
+                : env(env_), tree_table(std::move(env_.shared_table_store)), tree_keys(env_.shared_keys)
+            {
+                env.parsing = true;
+                env.shared_keys = 0;
+            }
             ~ParsingScope()
             {
                 env.parsing = false;
                 env.shared_table_store = std::move(tree_table);
+                env.shared_keys = tree_keys;
             }
             Environment& env;
             /* what is written and what is in the tree don't share any objects */
-            HTable<const void*, size_t> tree_table;
+            SharedTable tree_table;
+            size_t      tree_keys;
         };
         Lib::In   in;
         Lib::Out  out;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 9c807e2..7efb101 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -127,7 +127,7 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
+        std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj);
         std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::type_info& type,
                                                              const std::function<std::shared_ptr<void>(void)>& create);
 
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 55afd67..6b1ffde 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -771,7 +771,7 @@ namespace Srl { namespace Lib {
                 Switch<std::nullptr_t>::Insert(nullptr, node, name);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(p);
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index d461cb7..d5a8021 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -223,5 +223,6 @@ void Environment::clear()
     this->heap.clear();
     this->str_table.clear();
     this->shared_table_store.clear();
+    this->shared_keys = 0;
     this->shared_table_restore.clear();
 }
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index adbbec3..60b8b90 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -564,14 +564,21 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj)
 {
-    bool exists; size_t* key;
     auto& table = this->env->shared_table_store;
+    auto* entry = table.get(obj.get());
 
-    tie(exists, key) = table.insert(obj, table.num_entries());
+    /* pointers without an owner never expire */
+    if(entry && (obj.use_count() < 1 || !entry->second.expired())) {
+        return { true, entry->first };
+    }
+
+    auto key = this->env->shared_keys;
+    table.upsert(obj.get(), key, obj);
+    this->env->shared_keys++;
 
-    return { exists, *key };
+    return { false, key };
 }
 
 pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const type_info& type,
-- 
2.43.0


From 544f2e09f2bdc6bc4e4ab752a29ee9a509895d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 53/54] fix: give shared objects added to a loaded document
 keys which are not in it

---
 src/lib/Environment.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index d5a8021..c18955c 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -31,6 +31,7 @@ namespace {
 
 const String Environment::EmptyString = Srl::String();
 const uint64_t EmptyStringHash = hash_fnc(String());
+const uint64_t SharedKeyHash   = hash_fnc(Aux::str_shared_key);
 
 
 String Environment::conv_string(const String& str)
@@ -140,7 +141,17 @@ Link<Value>* Environment::store_value(Node& parent, const Value& value, const St
         block.extern_data = Aux::copy(this->heap, { block.extern_data, block.size }).ptr;
     }
 
-    return this->create_link(parent.values, stored, name);
+    auto* link = this->create_link(parent.values, stored, name);
+
+    if(link->hash == SharedKeyHash && link->field.name() == Aux::str_shared_key) {
+        /* shared objects which are inserted later must not get a key of the document */
+        uint64_t key;
+        if(TpTools::is_scalar(value.type()) && TpTools::apply_type(key, value) && key >= this->shared_keys) {
+            this->shared_keys = key + 1;
+        }
+    }
+
+    return link;
 }
 
 void Environment::write(const Value& value, const String& field_name)
-- 
2.43.0


From 08e9e9ae47866292fb05db0124ab9aa509e50586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 54/54] fix: subject scopes which are set aside to the nesting
 limit themselves

---
 src/lib/Node.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 60b8b90..e3fba63 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -245,6 +245,10 @@ Union Node::get(size_t index)
 
 void Node::read_source(int scope_depth)
 {
+    if(scope_depth > MAX_SAFE_NESTED_SCOPE_DEPTH) {
+        throw Exception("Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + "] exceeded");
+    }
+
     auto& parser = *this->env->parser;
     auto& source = this->env->in;
 
@@ -265,10 +269,6 @@ void Node::read_source(int scope_depth)
 
         } else {
 
-            if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH) {
-                throw Exception("Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + "] exceeded");
-            }
-
             auto* link = this->env->store_node(*this, Node(this->env->tree, val.type()), field_name);
 
             link->field.read_source(scope_depth + 1);
-- 
2.43.0

