From c24f35e1e175abd5d39624e7b4641493c12d1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 01/48] fix: MessagePack: write and read str/bin 16 and 32 bit
 lengths in big-endian order

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..fd41907 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -137,12 +137,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xC5);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xC6);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -164,12 +164,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xDA);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xDB);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From 7f35ca74ac909662b45b071ae2a5754e682a5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 02/48] fix: MessagePack: reject the reserved prefix 0xC1
 instead of reading it as a number

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index fd41907..52fa1ed 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From df6a2277d8f95b693097cd35c87f58f349ca67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 03/48] fix: MessagePack: reject maps with keys which are not
 strings

---
 src/lib/PMsgPack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 52fa1ed..5d6b998 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -434,7 +434,11 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+        if(!prefix_is_str(prefix)) {
+            /* only string keys are supported, anything else would be misread as a value */
+            error();
+        }
+        name = read_name(prefix, this->buffer, source);
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From 45bacf9fbd7c2b7a2738fa5076d53a1f850fa057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 04/48] fix: In: never read past the end of the source when it
 is truncated or holds oversized lengths

---
 include/Srl/In.hpp | 13 +++++--------
 src/lib/In.cpp     |  2 +-
 src/lib/PJson.cpp  |  2 +-
 src/lib/PSrl.cpp   | 26 ++++++++++++--------------
 4 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..1081022 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -43,12 +43,9 @@ namespace Srl { namespace Lib {
     template<bool Not, class... Tokens>
     size_t In::move_until(const Error& error, const Tokens&... tokens)
     {
-        if(!this->pos) {
-            error();
-        }
         auto steps = 0U;
 
-        while(Not == this->is_at_token(tokens...)) {
+        while(this->peek(1, error) && Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
         }
@@ -82,7 +79,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +87,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -116,14 +113,14 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : this->end - this->pos;
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..a464f1d 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,24 +88,22 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
-        uint64_t out_integer = mask_reset_msb & block;
-
-        auto shift = 7U;
+        uint64_t out_integer = 0;
+        uint8_t  block;
+        auto shift = 0U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
-        while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
+        do {
+            block = source.read_move<uint8_t>(error);
+
+            /* no support for integers > 64 bit */
+            if(shift > 9 * 7 || (shift == 9 * 7 && block > 1)) {
+                error();
+            }
+
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
-        }
-
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
 
-        source.move(1, error);
+        } while(mask_msb & block);
 
         return out_integer;
     }
-- 
2.43.0


From 766e2ff08324203a0622072ddb2ee5df191954a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 05/48] fix: In: keep the anchored start of a token over
 repeated stream reads

---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..77a5609 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    this->anchor = this->anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From 0138773f014dc8c99c46e199eb7da7610d60e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 06/48] fix: In: grow the stream buffer with the data present,
 not with a length claimed by the input

---
 src/lib/In.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 77a5609..8f50a32 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -63,18 +63,26 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;
 
     auto preserve_sz = this->end - (this->start + preserve_pos - margin);
-    auto bufsz = preserve_sz + read_len;
-
-    if(this->buffer.size() < bufsz) {
-        this->buffer.resize(bufsz);
-    }
 
     if(preserve_sz > 0) {
         memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);
     }
 
-    this->stream->read((char*)&this->buffer[preserve_sz], read_len);
-    auto bytes_read = (size_t)this->stream->gcount();
+    /* grow with the data actually read, the requested size might be bogus */
+    const size_t max_chunk = 65536;
+    size_t bytes_read = 0, chunk = 0;
+
+    do {
+        chunk = read_len - bytes_read < max_chunk ? read_len - bytes_read : max_chunk;
+
+        if(this->buffer.size() < preserve_sz + bytes_read + chunk) {
+            this->buffer.resize(preserve_sz + bytes_read + chunk);
+        }
+
+        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
+        bytes_read += (size_t)this->stream->gcount();
+
+    } while(bytes_read < read_len && (size_t)this->stream->gcount() == chunk);
 
     this->pos  = &this->buffer[preserve_sz - left];
     this->anchor = this->anchor ? &this->buffer[margin] : nullptr;
-- 
2.43.0


From f56d08db4cad8e0ec3d86061f4397fefe6a77abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 07/48] fix: Out: complete container sizes relative to the
 start of the document in the stream

---
 include/Srl/Out.h   | 1 +
 include/Srl/Out.hpp | 7 ++++++-
 src/lib/Out.cpp     | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..8032c75 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -71,6 +71,7 @@ namespace Srl { namespace Lib {
 
         bool streaming;
         std::ostream* stream = nullptr;
+        std::streamoff stream_start = 0;
         std::vector<uint8_t>* buffer = nullptr;
 
         void inc_cap          (size_t nbytes);
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..ebeb553 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -3,6 +3,7 @@
 
 #include "Out.h"
 #include "Aux.h"
+#include "Exception.h"
 
 namespace Srl { namespace Lib {
 
@@ -49,7 +50,11 @@ namespace Srl { namespace Lib {
         } else {
             auto crr = this->stream->tellp();
 
-            this->stream->seekp(ticket.pos + offset);
+            if(this->stream_start < 0 || crr < 0) {
+                throw Exception("Unable to complete document. Output stream is not seekable.");
+            }
+
+            this->stream->seekp(this->stream_start + (std::streamoff)(ticket.pos + offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..106d305 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -12,6 +12,8 @@ void Out::set(Source source)
 
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
+    /* documents don't necessarily start at the beginning of a stream */
+    this->stream_start = source.is_stream ? (streamoff)this->stream->tellp() : 0;
     this->buffer = !source.is_stream ? source.buffer : nullptr;
 }
 
-- 
2.43.0


From 0ddf2c59686cccc39b2ba856ecc76a3f128cc590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 08/48] fix: conv_charset: don't count the buffer index twice
 when the buffer is enlarged

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..fa09124 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -379,8 +379,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From 045664f8e86f2de8b90b4bb0f51381a9417b17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 09/48] fix: JSON: read \uXXXX escapes as code points,
 including surrogate pairs

---
 src/lib/PJson.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..6b13b81 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -13,14 +13,33 @@ namespace {
         throw Exception("Unable to parse JSON document. Index out of bounds.");
     };
 
-    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
+    /* reads "\uXXXX" as UTF-16 code unit in little-endian order */
+    void read_uc_unit(In& src, uint8_t* dest)
+    {
         uint8_t hex_buffer[2];
         /* skip "\u" and read 4 hex digits */
         auto block = src.read_block(2 + 4, error);
 
         Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+        dest[0] = hex_buffer[1];
+        dest[1] = hex_buffer[0];
+    }
+
+    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
+        uint8_t units[4];
+        size_t size = 2;
+
+        read_uc_unit(src, units);
+
+        bool high_surrogate = (units[1] & 0xFC) == 0xD8;
+
+        if(high_surrogate && src.try_peek(2) && Aux::comp<2>(src.pointer(), "\\u")) {
+            read_uc_unit(src, units + 2);
+            size = 4;
+        }
+
+        return Tools::conv_charset(Encoding::UTF8, String(units, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 9bcf9219be207adf384f5d7ae252d035a850fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 10/48] fix: JSON: escape field names and all control
 characters

---
 src/lib/PJson.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 6b13b81..f546ef1 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -49,10 +49,31 @@ namespace {
 
     void write_escape(const MemBlock& str, Out& out)
     {
-        out.write_substitute(str,
-            '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
-        );
+        const auto write_subst = [&out](const MemBlock& block) {
+            out.write_substitute(block,
+                '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
+                '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            );
+        };
+
+        size_t start = 0;
+        for(size_t i = 0; i < str.size; i++) {
+
+            auto c = str.ptr[i];
+            if(c >= 0x20 || (c >= '\b' && c <= '\r' && c != '\v')) {
+                continue;
+            }
+            /* other control characters don't have a short form */
+            write_subst({ str.ptr + start, i - start });
+            out.write((const uint8_t*)"\\u00", 4);
+
+            auto hex = Tools::bytes_to_hex(&c, 1);
+            out.write(hex.data(), hex.size());
+
+            start = i + 1;
+        }
+
+        write_subst({ str.ptr + start, str.size - start });
     }
 
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
@@ -126,7 +147,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From 47e479e21520161261cb6967254b5c8a419aba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 11/48] fix: JSON: don't take the end of a block comment for
 the start of another comment

---
 src/lib/PJson.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index f546ef1..b3ff2eb 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -123,7 +123,10 @@ namespace {
         }
 
         if(*(source.pointer() + 1) == '*') {
+            source.move(2, error);
             source.move_until(error, array<const char, 2> { { '*', '/' } });
+            /* the closing slash is skipped by the caller */
+            source.move(1, error);
             return;
         }
 
-- 
2.43.0


From b0b8248b136c1b5ba5d5f9b62bfd870990abeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 12/48] fix: JSON: accept comments directly after literals

---
 src/lib/PJson.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index b3ff2eb..1c507ed 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -333,13 +333,14 @@ void PJson::process_char(In& source, State& state, bool& out_move)
         bool likely_fp = false;
         In::Notify dec ('.', likely_fp);
 
-        auto block = source.read_block_until(error, ',', ' ', '}', ']', dec);
+        auto block = source.read_block_until(error, ',', ' ', '\n', '\t', '\r', '}', ']', '/', dec);
 
         this->process_literal(block, state, likely_fp ? Type::FP64 : Type::Null);
 
-        if(*source.pointer() == '}' || *source.pointer() == ']') {
+        if(*source.pointer() == '}' || *source.pointer() == ']' || *source.pointer() == '/') {
             /* The bracket has a double meaning here, first it delimits the literal,
-             * and second it closes the scope. So make sure it will be processed. */
+             * and second it closes the scope. So make sure it will be processed.
+             * Same goes for the start of a comment. */
             out_move = false;
         }
     }
-- 
2.43.0


From 9b56bfc9786f547da83fb09ac8975bcf56cd565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 13/48] fix: str_to_type: detect all overflows of integers
 beyond 64 bit

---
 src/lib/ToolsStrConv.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index fa09124..9d4c81d 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,8 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
+        const auto max_val = numeric_limits<uint64_t>::max();
+
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,12 +67,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (max_val - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
-- 
2.43.0


From 9df8126a4001c8122e6d172fb8af1bc8511b0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 14/48] fix: handle the smallest 64 bit integer without
 overflow, refuse smaller ones in Srl format

---
 src/lib/PSrl.cpp         | 10 ++++++++--
 src/lib/ToolsStrConv.cpp |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index a464f1d..556dd25 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -1,6 +1,8 @@
 #include "Srl/Srl.h"
 #include "Srl/Lib.h"
 
+#include <limits>
+
 using namespace std;
 using namespace Srl;
 using namespace Lib;
@@ -205,7 +207,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - value.pblock().ui64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -281,8 +283,12 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
 
     uint64_t integer = decode_integer(source);
 
+    if(flag & FSigned && integer > (uint64_t)numeric_limits<int64_t>::max() + 1) {
+        error();
+    }
+
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 9d4c81d..bdd7df3 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -75,7 +75,7 @@ namespace {
             val = val * 10 + digit;
         }
 
-        bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
+        bool success = idx >= str_len && (!is_signed || val <= (uint64_t)numeric_limits<int64_t>::max() + 1);
 
         return make_tuple(val, is_signed, success);
     }
@@ -100,7 +100,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - value.pblock().ui64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
@@ -220,7 +220,7 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
         if(success) {
-            return is_signed ? make_pair(true, Value(-(int64_t)i)) : make_pair(true, Value(i));
+            return is_signed ? make_pair(true, Value((int64_t)(0 - i))) : make_pair(true, Value(i));
         }
     }
 
-- 
2.43.0


From a79b0a5efcd9d5a87ec66bba19c80f37d08ddf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 15/48] fix: type_to_str: don't print 2^63 as a negative number

---
 src/lib/ToolsStrConv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index bdd7df3..6f5cee1 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -135,7 +135,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From 7079305d3cab144583301dd06653359b188c4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 16/48] fix: refuse to convert NaN and floating point values
 beyond 64 bit to integers

---
 include/Srl/TpTools.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..6f20b38 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -155,6 +155,14 @@ namespace Srl { namespace TpTools {
                 return false;
             }
 
+            /* NaN has no integer counterpart and the maximum of 64 bit integers
+             * isn't representable as double, the conversion rounds it up */
+            if(is_integral(SrlType<T>::type) &&
+              (val != val || (sizeof(T) == 8 && val >= (double)max<T>()))) {
+
+                return false;
+            }
+
             target = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
             return true;
         }
-- 
2.43.0


From efcde24854dc68ee82997572d9a840a2ae22fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 17/48] fix: Srl format: keep a copy of field names for
 indexing, they may be temporary

---
 src/lib/PSrl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 556dd25..e10004a 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -127,14 +127,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     auto nstrings = this->hashed_strings.num_entries();
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
+    auto* index = this->hashed_strings.get(str);
 
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the memory of the name isn't guaranteed to outlive this call */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From 66b3a87925f7f2ffb4f1f477d71bc0a7e044a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 18/48] fix: Node::get(index): throw if the index is out of
 bounds

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..7e06be9 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From bfbd139eaa8b71662f72cbf4faab4496ff00e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 19/48] fix: Node::to_source: don't dereference the missing
 name of a standalone node

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 7e06be9..f72152c 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 085488b2f92a3f40beadc4110fc325d9b75758d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 20/48] fix: Node::consume_scope: skip the whole scope, not
 only up to the end of the first nested one

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index f72152c..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From 65e3444269d63b8b86ffe3d5bece60990e6c1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 21/48] fix: unpacking a Union doesn't drop the remaining
 fields

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..499f8a8 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From cbf8fcfd449bd2b7a6e3448ccdf0f1a5cb34a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 22/48] fix: HTable: move the memory of the entries along with
 the table

---
 include/Srl/Hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..3265dc6 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,10 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From 56e33e6fca5920d686531478dbdab662f5e2c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 23/48] fix: a Tree accepts new fields again after a store or
 pack ended by an exception

---
 include/Srl/Environment.h | 12 ++++++++++++
 include/Srl/Tree.hpp      |  3 +--
 src/lib/Tree.cpp          |  3 +--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..fecfb44 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -80,6 +80,18 @@ namespace Lib {
         void clear();
 
     };
+
+    /* Directs inserted items to the output for its lifetime, also if left by an exception. */
+    struct DirectOutput {
+
+        DirectOutput(Environment& env_) : env(env_) { env.parsing = true; }
+        ~DirectOutput() { env.parsing = false; }
+
+        DirectOutput(const DirectOutput&)             = delete;
+        DirectOutput& operator= (const DirectOutput&) = delete;
+
+        Environment& env;
+    };
 } }
 
 #endif
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..a189933 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,7 +56,7 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
+        Lib::DirectOutput direct(*this->env);
 
         this->env->write(Value(Type::Object), "");
 
@@ -64,7 +64,6 @@ namespace Srl {
 
         this->env->write(Value(Type::Scope_End), "");
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..e3c7e94 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,7 +55,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
+    DirectOutput direct(*this->env);
 
     auto& name = this->root_node->name();
     this->env->write(Value(type), name);
@@ -64,7 +64,6 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
 
     this->env->write(Value(Type::Scope_End), name);
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From 22374b2197672fba530ae4ae7e104b2120ecb8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 24/48] fix: every store and pack writes complete shared
 objects, also if stored before

---
 include/Srl/Environment.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index fecfb44..ddbf006 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -84,13 +84,23 @@ namespace Lib {
     /* Directs inserted items to the output for its lifetime, also if left by an exception. */
     struct DirectOutput {
 
-        DirectOutput(Environment& env_) : env(env_) { env.parsing = true; }
-        ~DirectOutput() { env.parsing = false; }
+        DirectOutput(Environment& env_)
+            : env(env_), tree_refs(std::move(env_.shared_table_store)) { env.parsing = true; }
+
+        ~DirectOutput()
+        {
+            env.parsing = false;
+            env.shared_table_store = std::move(tree_refs);
+        }
 
         DirectOutput(const DirectOutput&)             = delete;
         DirectOutput& operator= (const DirectOutput&) = delete;
 
         Environment& env;
+
+    private:
+        /* shared objects known from the tree aren't part of the written document and vice versa */
+        HTable<const void*, size_t> tree_refs;
     };
 } }
 
-- 
2.43.0


From 0c98a20b6cdf24e9a673beb569f1cbd3380afa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 25/48] fix: VecWrap: refuse binary data which isn't a multiple
 of the element size

---
 include/Srl/BitWrap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..e4c2f9e 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -3,6 +3,7 @@
 
 #include "Blocks.h"
 #include "Common.h"
+#include "Exception.h"
 #include "Srl/Resolve.h"
 
 #include <functional>
@@ -42,6 +43,9 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
+                    if(sz % sizeof(T) != 0) {
+                        throw Exception("Unable to restore vector. Size of binary data doesn't fit size of elements.");
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From 70045d9df7abeeabaeebe105954309ed332ceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 26/48] fix: base64 decoding: refuse malformed strings, don't
 read beyond the table or the source

---
 src/lib/ToolsBtsConv.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..ab0edab 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -81,6 +81,11 @@ size_t Tools::bytes_to_base64(const uint8_t* bytes, size_t nbytes, vector<uint8_
 
 size_t Tools::get_base64_decoded_size(const char* str, size_t str_len)
 {
+    if(str_len % 4 != 0) {
+        throw Exception("Unable to convert base64 string to binary data." \
+                        " Size of source must be a multiple of 4." );
+    }
+
     if(str_len < 4) {
         return 0;
     }
@@ -110,16 +115,21 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
                         " Size of source must be a multiple of 4." );
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size && in_idx < str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
+
+        /* one or two fill characters are allowed at the very end */
+        bool misplaced_fill = b0 == table.val_fill || b1 == table.val_fill ||
+            (b2 == table.val_fill && b3 != table.val_fill) ||
+            (b3 == table.val_fill && in_idx + 4 < str_len);
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
-           b2 == table.val_invalid || b3 == table.val_invalid) {
+           b2 == table.val_invalid || b3 == table.val_invalid || misplaced_fill) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
-- 
2.43.0


From 458e1255749084f7a5bec4f0e6e22d242a1b55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 27/48] fix: terminate converted character arrays after the
 converted text

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 499f8a8..48af747 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From fb5e9168ac68bc22ed9787531d6b27b379e91cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 28/48] fix: don't read beyond the end of UTF-16 and UTF-32
 character arrays

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 48af747..9bf6f7d 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
-- 
2.43.0


From 28b334025fbaa87c88a421b6547dad2b9d8b97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 29/48] fix: ScopeWrap: keep the insert function, not a
 reference to a temporary

---
 include/Srl/ScopeWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/ScopeWrap.h b/include/Srl/ScopeWrap.h
index a6b6f6f..e91642d 100644
--- a/include/Srl/ScopeWrap.h
+++ b/include/Srl/ScopeWrap.h
@@ -23,7 +23,7 @@ namespace Srl {
 
     private:
         const Type scope_type;
-        const std::function<void(Node&)>& fn_insert;
+        const std::function<void(Node&)> fn_insert;
 
     };
 }
-- 
2.43.0


From f3cff6355c01289bd6974edf51d5ba898e2e54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 30/48] fix: load_object sets the scope type of the root,
 containers are arrays

---
 include/Srl/Tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a189933..7918a29 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -160,6 +160,7 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From 19787fcfb6c97eafbdd9b4d9c080f41011ffb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 31/48] fix: restore an empty unique_ptr as empty

---
 include/Srl/Resolve.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 9bf6f7d..10b21b0 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -735,7 +735,10 @@ namespace Srl { namespace Lib {
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
             E* content = nullptr;
-            Apply(content, item, id);
+
+            if(item.type() != Type::Null) {
+                Apply(content, item, id);
+            }
             p = T(content);
         }
 
-- 
2.43.0


From 692bf352dd6572f89b9ebed4ad4661a8fd310793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 32/48] fix: don't leave a dangling pointer behind if restoring
 the object it points to fails

---
 include/Srl/Resolve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 10b21b0..623815b 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -456,6 +456,7 @@ namespace Srl { namespace Lib {
 
             if(o != nullptr) {
                 delete o;
+                o = nullptr;
             }
 
             auto uptr = Lib::registrations()->create<U>(type_id);
@@ -705,6 +706,7 @@ namespace Srl { namespace Lib {
 
             if(p != nullptr) {
                 delete p;
+                p = nullptr;
             }
 
             auto val_type = item.type();
-- 
2.43.0


From 127f92f7063b9b9b2d4354006ae2b58fd0bfbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 33/48] fix: refuse too many elements for a fixed size array
 also when restoring directly

---
 include/Srl/Resolve.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 623815b..22100fb 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -608,7 +608,10 @@ namespace Srl { namespace Lib {
                     count++;
                 }
 
-                Aux::check_size(len, count, id);
+                /* mustn't hold more elements than the array */
+                node.consume_item<E>();
+
+                Aux::check_size(len, node.parsed ? count : count + 1, id);
             }
         }
     };
-- 
2.43.0


From 547f03d587c881e278f3e1b6831ed866dfe528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 34/48] fix: keep a copy of the type id while restoring a
 polymorphic object

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 22100fb..61e6a83 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -451,7 +451,7 @@ namespace Srl { namespace Lib {
             Aux::check_type_scope(node.type(), id);
 
             Context ctx(node, Mode::Paste);
-            String type_id;
+            std::string type_id;
             ctx(Aux::str_type_id, type_id);
 
             if(o != nullptr) {
-- 
2.43.0


From e8dd78f9706e2f8aef9fc5c4b10c612536359cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 35/48] fix: apply the limit of nested scopes also to directly
 restored objects

---
 include/Srl/Node.h |  1 +
 src/lib/Node.cpp   | 28 +++++++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..0d20593 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -121,6 +121,7 @@ namespace Srl {
 
         Type          scope_type;
         bool          parsed;
+        int           depth = 0;
 
         template<class... Args>
         void open_scope (void (*Insert)(Node& node, const Args&... args),
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ca870eb..092b6e8 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -137,6 +137,14 @@ namespace {
         return links.end();
     }
 
+    int nested_depth(int scope_depth)
+    {
+        if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH) {
+            throw Exception("Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + "] exceeded");
+        }
+        return scope_depth + 1;
+    }
+
     bool compare(const String& a, const MemBlock& b)
     {
         return a.size() == b.size && memcmp(a.data(), b.ptr, b.size) == 0;
@@ -265,13 +273,11 @@ void Node::read_source(int scope_depth)
 
         } else {
 
-            if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH) {
-                throw Exception("Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + "] exceeded");
-            }
+            auto next_depth = nested_depth(scope_depth);
 
             auto* link = this->env->store_node(*this, Node(this->env->tree, val.type()), field_name);
 
-            link->field.read_source(scope_depth + 1);
+            link->field.read_source(next_depth);
         }
     }
 }
@@ -306,7 +312,7 @@ Union Node::consume_item(const String& id, bool throw_err)
 
         if(TpTools::is_scope(tp)) {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(nested_depth(this->depth));
             if(link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
@@ -352,11 +358,14 @@ Node Node::consume_node(bool throw_ex, const String& id)
 
         if(TpTools::is_scope(tp)) {
             if(compare(id_conv, seg_name)) {
-                return Node(this->env->tree, tp, false);
+                Node node(this->env->tree, tp, false);
+                node.depth = nested_depth(this->depth);
+
+                return node;
             }
 
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(nested_depth(this->depth));
 
         } else {
             this->env->store_value(*this, val, seg_name);
@@ -403,7 +412,7 @@ Value Node::consume_value(bool throw_ex, const String& id)
 
         } else {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(nested_depth(this->depth));
         }
     }
 
@@ -439,6 +448,7 @@ Node Node::consume_node(bool throw_ex, size_t)
 
         if(TpTools::is_scope(tp)) {
             Node node(this->env->tree, tp, false);
+            node.depth = nested_depth(this->depth);
             node.name_ptr = this->env->store_string(seg_name).first;
 
             return node;
@@ -482,7 +492,7 @@ Value Node::consume_value(bool throw_ex, size_t)
 
         } else {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
+            link->field.read_source(nested_depth(this->depth));
         }
     }
 
-- 
2.43.0


From 66d78aefa26ab4d24d02a722d8d0fc3df266ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 36/48] fix: refuse a type id naming a class which isn't
 derived from the required one

---
 include/Srl/Registration.h | 53 ++++++++++++++++++++++++++++++++------
 src/lib/Registration.cpp   |  6 ++---
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..b6adb5d 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -6,6 +6,8 @@
 #include "Exception.h"
 #include "Resolve.h"
 
+#include <typeinfo>
+
 namespace Srl {
 
     struct TypeID { virtual const char* name() const = 0; };
@@ -14,13 +16,23 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Class {
+                const std::type_info* type;
+                void* (*make)    ();
+                void  (*raise)   (void*);
+                void  (*destroy) (void*);
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                bool exists = this->insert(id, {
+                    &typeid(T),
+                    []() -> void*    { return Ctor<T>::Create_New().release(); },
+                    [](void* object) { throw static_cast<T*>(object); },
+                    [](void* object) { delete static_cast<T*>(object); }
+                });
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -30,21 +42,46 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* cls = this->find(id);
 
-                if(!make) {
+                if(!cls) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
+                auto* object = cls->make();
+
+                auto* ptr = cast<T>(object, *cls);
+                if(!ptr) {
+                    cls->destroy(object);
+                    throw Exception("Class id " + id.unwrap(false) + " isn't the id of the required or a derived class.");
+                }
+
                 return std::unique_ptr<T>(ptr);
             }
 
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Class> table { 16 };
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            bool   insert (const String& id, const Class& cls);
+            Class* find   (const String& id);
+
+            /* The registered class may be any, exception handling knows
+             * whether (and how) it's convertible to the required one. */
+            template<class T>
+            static T* cast(void* object, const Class& cls)
+            {
+                if(*cls.type == typeid(T)) {
+                    return static_cast<T*>(object);
+                }
+
+                try { cls.raise(object); }
+
+                catch(T* ptr) { return ptr; }
+
+                catch(...) { }
+
+                return nullptr;
+            }
         };
 
         Registrations* registrations();
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..05c8343 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Registrations::Class& cls)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, cls);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Class* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From 28affba2e65361eb40abb31314333780c16c0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 37/48] fix: shared objects: refuse a key which refers to an
 object of an incompatible type

---
 include/Srl/Environment.h  | 10 +++++++++-
 include/Srl/Node.h         |  2 +-
 include/Srl/Registration.h |  9 +++++++++
 include/Srl/Resolve.hpp    | 40 ++++++++++++++++++++++++++++++++++----
 src/lib/Node.cpp           | 10 +++++-----
 5 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index ddbf006..3fc1ef8 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -9,6 +9,7 @@
 #include "Out.h"
 
 #include <list>
+#include <typeinfo>
 
 namespace Srl {
 
@@ -37,6 +38,13 @@ namespace Lib {
         }
     };
 
+    /* shared object restored from a source */
+    struct SharedItem {
+        std::shared_ptr<void>  ptr;
+        const std::type_info*  type;
+        void                 (*raise) (void*);
+    };
+
     struct Environment {
 
         static const String EmptyString;
@@ -49,7 +57,7 @@ namespace Lib {
         HTable<String, String> str_table;
 
         HTable<const void*, size_t>           shared_table_store   { 16 };
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        HTable<size_t, SharedItem>            shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 0d20593..d5988b5 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -128,7 +128,7 @@ namespace Srl {
                          Type node_type, const String& name, const Args&... args);
 
         std::pair<bool, uint64_t> insert_shared (const void* obj);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        std::pair<bool, Lib::SharedItem*>  find_shared (uint64_t key, const std::function<Lib::SharedItem(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index b6adb5d..67665e6 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -59,6 +59,15 @@ namespace Srl {
                 return std::unique_ptr<T>(ptr);
             }
 
+            /* throws the object of the given type as pointer to its class */
+            void raise(const String& id, const std::type_info& type, void* object)
+            {
+                auto* cls = this->find(id);
+                if(cls && *cls->type == type) {
+                    cls->raise(object);
+                }
+            }
+
         private:
             HTable<String, Class> table { 16 };
 
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 61e6a83..d1fdac5 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -791,20 +791,52 @@ namespace Srl { namespace Lib {
         static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
         {
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
-            bool inserted_new; std::shared_ptr<void>* sptr;
+            bool inserted_new; SharedItem* item;
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
+            std::tie(inserted_new, item) = node.find_shared(key, [&p, &node] {
                 E* e = nullptr;
                 Apply(e, node);
                 p = std::shared_ptr<E>(e);
-                return p;
+                return SharedItem { p, &typeid(E), &Raise<E> };
             });
 
             if(!inserted_new) {
-                p = std::static_pointer_cast<E>(*sptr);
+                p = Cast(*item, key);
             }
         }
 
+        /* The object may have been restored through a pointer to a different class,
+         * exception handling knows whether (and how) it's convertible to the required one. */
+        static T Cast(const SharedItem& item, uint64_t key)
+        {
+            if(*item.type == typeid(E)) {
+                return std::static_pointer_cast<E>(item.ptr);
+            }
+
+            try { item.raise(item.ptr.get()); }
+
+            catch(E* ptr) { return T(item.ptr, ptr); }
+
+            catch(...) { }
+
+            throw Exception("Shared object " + std::to_string(key) + " isn't of the required type.");
+        }
+
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value && std::is_polymorphic<C>::value, void>::type
+        Raise(void* object)
+        {
+            auto* o = static_cast<C*>(object);
+            Lib::registrations()->raise(o->srl_type_id().name(), typeid(*o), dynamic_cast<void*>(o));
+        }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value || !std::is_polymorphic<C>::value, void>::type
+        Raise(void* object)
+        {
+            throw static_cast<C*>(object);
+        }
+
         template<class C>
         static typename std::enable_if<is_polymorphic<C*>::value, void>::type
         Apply(C*& p, Node& node)
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 092b6e8..1308b49 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -554,18 +554,18 @@ pair<bool, uint64_t> Node::insert_shared (const void* obj)
     return { exists, *key };
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+pair<bool, SharedItem*> Node::find_shared (uint64_t key, const function<SharedItem(void)>& create)
 {
     auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
+    auto* item = table.get(key);
     bool inserted_new = false;
 
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
+    if(!item) {
+        item = table.insert(key, create()).second;
         inserted_new = true;
     }
 
-    return { inserted_new, sptr };
+    return { inserted_new, item };
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From de02e10a7c386e9939ba8331a46a297a7ffe7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 38/48] fix: Heap: reserve the space needed to align
 over-aligned types in a new segment

---
 src/lib/Heap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..7b5f6d5 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -203,7 +203,9 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
         }
     }
 
-    auto alloc_sz = this->cap > n ? this->cap : n;
+    /* new[] guarantees no more than the default alignment */
+    auto min_sz   = align > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? n + align - 1 : n;
+    auto alloc_sz = this->cap > min_sz ? this->cap : min_sz;
 
     auto* link = this->chain.get_link();
     seg = &link->val;
-- 
2.43.0


From 1b620be055859b8479e75b992fdca7f2668ac19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 39/48] fix: UTF-16/32 text stored in a document was accessed
 at misaligned addresses

---
 include/Srl/Tools.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Tools.hpp b/include/Srl/Tools.hpp
index 55e2ed7..407026b 100644
--- a/include/Srl/Tools.hpp
+++ b/include/Srl/Tools.hpp
@@ -5,6 +5,8 @@
 #include "Resolve.h"
 #include "String.h"
 
+#include <cstring>
+
 namespace Srl { namespace Tools {
 
     template<class TChar>
@@ -15,10 +17,13 @@ namespace Srl { namespace Tools {
         auto target_encoding = Lib::get_encoding<TChar>();
 
         if(str_wrap.encoding() == target_encoding) {
-            return std::basic_string<TChar>(
-                reinterpret_cast<const TChar*>(str_wrap.data()),
-                str_wrap.size() / sizeof(TChar)
-            );
+            /* source isn't necessarily aligned */
+            std::basic_string<TChar> str(str_wrap.size() / sizeof(TChar), TChar());
+
+            if(!str.empty()) {
+                memcpy(&str[0], str_wrap.data(), str.size() * sizeof(TChar));
+            }
+            return str;
         }
 
         std::vector<uint8_t> converted = conv_charset(target_encoding, str_wrap, throw_error);
-- 
2.43.0


From 020ee64272ed22b6080951273e0fccc45c18db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 40/48] fix: shared_ptr: polymorphic object was leaked if the
 rest of its scope couldn't be read

---
 include/Srl/Resolve.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index d1fdac5..2570abf 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -841,7 +841,10 @@ namespace Srl { namespace Lib {
         static typename std::enable_if<is_polymorphic<C*>::value, void>::type
         Apply(C*& p, Node& node)
         {
-            node.paste_field(Aux::str_shared_value, p);
+            /* the remains of the scope are read with the object already created */
+            std::unique_ptr<C> uptr;
+            node.paste_field(Aux::str_shared_value, uptr);
+            p = uptr.release();
         }
 
         template<class C>
-- 
2.43.0


From 5345f7bacbb42aa5b3e4f3d9c7a32bd9151b54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 41/48] fix: Heap: giving memory back threw, and ended the
 program, if no memory was left for the bookkeeping

---
 include/Srl/Heap.h |  2 +-
 src/lib/Heap.cpp   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..c9c1325 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -51,7 +51,7 @@ namespace Srl { namespace Lib {
         template<class T, class... Args>
         T* create (Args&&... args);
 
-        void put_mem(uint8_t* mem, size_t sz);
+        void put_mem(uint8_t* mem, size_t sz) noexcept;
 
         void clear();
 
diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 7b5f6d5..631f76e 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -151,13 +151,17 @@ Aux::SList<T>::find_rm(const Predicate& pred)
     return nullptr;
 }
 
-void Heap::put_mem(uint8_t* mem, size_t sz)
+void Heap::put_mem(uint8_t* mem, size_t sz) noexcept
 {
+    try {
+        auto* link = this->chain.get_link();
+        set_subsegment(link->val, mem, sz);
 
-    auto* link = this->chain.get_link();
-    set_subsegment(link->val, mem, sz);
+        this->chain.free_segs.append(link);
 
-    this->chain.free_segs.append(link);
+    } catch(const bad_alloc&) {
+        /* called on deallocation, which must not throw: the memory stays unused until the heap is cleared */
+    }
 }
 
 Heap::Segment* Heap::find_free_seg(size_t sz, size_t align)
-- 
2.43.0


From f39ec38273668e89bfad3f107e152c0598183387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 42/48] fix: Heap: failing allocations left blocks in use
 twice, or segments without memory

---
 src/lib/Heap.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 631f76e..2035a18 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -1,4 +1,5 @@
 #include "Srl/Heap.h"
+#include <memory>
 
 using namespace std;
 using namespace Srl;
@@ -18,9 +19,9 @@ namespace {
         seg.sub_seg = true;
     }
 
-    void set_segment(Heap::Segment& seg, size_t sz)
+    void set_segment(Heap::Segment& seg, uint8_t* data, size_t sz)
     {
-        seg.data = new uint8_t[sz];
+        seg.data = data;
         seg.left = sz;
         seg.size = sz;
         seg.sub_seg = false;
@@ -193,6 +194,7 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
@@ -211,9 +213,11 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
     auto min_sz   = align > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? n + align - 1 : n;
     auto alloc_sz = this->cap > min_sz ? this->cap : min_sz;
 
+    unique_ptr<uint8_t[]> data(new uint8_t[alloc_sz]);
+
     auto* link = this->chain.get_link();
     seg = &link->val;
-    set_segment(*seg, alloc_sz);
+    set_segment(*seg, data.release(), alloc_sz);
 
     this->chain.used_segs.append(link);
 
-- 
2.43.0


From bed4f35b104a152b3bad9f45a6bfe0e90e3ee9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 43/48] fix: HTable: failing allocation of the table left it
 unusable

---
 include/Srl/Hash.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 3265dc6..8de44bd 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -54,16 +54,16 @@ namespace Srl { namespace Lib {
     {
         if(this->limit == 0) {
             /* initial allocation */
+            this->table = this->alloc_table(std::max((size_t)1, this->cap));
             this->set_capacity(this->cap);
-            this->table = this->alloc_table(this->cap);
 
             return;
         }
 
         auto old_dim = this->cap;
-        this->set_capacity(this->cap * 2);
+        auto* ntable = alloc_table(this->cap * 2);
 
-        auto* ntable = alloc_table(this->cap);
+        this->set_capacity(this->cap * 2);
 
         for(auto i = 0U; i < old_dim; i++) {
             auto* entry = table[i];
@@ -234,7 +234,7 @@ namespace Srl { namespace Lib {
     typename HTable<K, V, H>::Entry** HTable<K, V, H>::alloc_table(size_t sz)
     {
         Entry** tbl = this->heap.template get_mem<Entry*>(sz);
-        memset(tbl, 0, this->cap * sizeof(nullptr));
+        memset(tbl, 0, sz * sizeof(nullptr));
         return tbl;
     }
 
-- 
2.43.0


From cff767ea8aab5b32a5f6bd393de0afb29abce9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 44/48] fix: HTable::upsert: value was destroyed twice if the
 construction of the new one failed

---
 include/Srl/Hash.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 8de44bd..bd972f3 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -180,8 +180,17 @@ namespace Srl { namespace Lib {
 
                 if(update_on_dup) {
 
-                    this->destroy_item(entry->val);
-                    new (&entry->val) V(std::forward<Args>(args)...);
+                    if constexpr(std::is_move_constructible<V>::value) {
+                        /* the present value must outlive a failing construction of the new one */
+                        V val(std::forward<Args>(args)...);
+
+                        this->destroy_item(entry->val);
+                        new (&entry->val) V(std::move(val));
+
+                    } else {
+                        this->destroy_item(entry->val);
+                        new (&entry->val) V(std::forward<Args>(args)...);
+                    }
                 }
 
                 return { true, &entry->val };
-- 
2.43.0


From b78cf6cec9d28b4b1017561296208e842d840994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 45/48] fix: HTable: number of entries was wrong after an
 exception while removing entries

---
 include/Srl/Hash.h   |  2 ++
 include/Srl/Hash.hpp | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Hash.h b/include/Srl/Hash.h
index 66a176d..7734932 100644
--- a/include/Srl/Hash.h
+++ b/include/Srl/Hash.h
@@ -122,6 +122,8 @@ namespace Srl { namespace Lib {
 
         Entry** alloc_table(size_t sz);
 
+        void recycle(Entry* entry) noexcept;
+
         Entry* get_rm (const Key& k, uint64_t hash);
 
         template<class KV, class... Args>
diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index bd972f3..45df0e2 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -225,6 +225,17 @@ namespace Srl { namespace Lib {
         return { false, &(new_entry->val) };
     }
 
+    template<class K, class V, class H>
+    void HTable<K, V, H>::recycle(Entry* entry) noexcept
+    {
+        try {
+            this->mem_cache.push_back(entry);
+
+        } catch(const std::bad_alloc&) {
+            /* the entry's memory stays unused until the table is cleared */
+        }
+    }
+
     template<class K, class V, class H>
     void HTable<K, V, H>::clear()
     {
@@ -297,7 +308,7 @@ namespace Srl { namespace Lib {
         }
 
         auto n = 0U;
-        auto n_deleted = 0U;
+        const auto total = this->elements;
 
         for(auto i = 0U; i < this->cap; i++) {
 
@@ -311,7 +322,7 @@ namespace Srl { namespace Lib {
 
                 if(do_rm) {
 
-                    n_deleted++;
+                    this->elements--;
 
                     if(prev) {
                         prev->next = entry->next;
@@ -322,7 +333,7 @@ namespace Srl { namespace Lib {
                     destroy_item<K>(entry->key);
                     destroy_item<V>(entry->val);
 
-                    this->mem_cache.push_back(entry);
+                    this->recycle(entry);
 
                 } else {
                     prev = entry;
@@ -331,12 +342,10 @@ namespace Srl { namespace Lib {
                 entry = entry->next;
             }
 
-            if(n >= this->elements) {
+            if(n >= total) {
                 break;
             }
         }
-
-        this->elements -= n_deleted;
     }
 
 
@@ -348,7 +357,7 @@ namespace Srl { namespace Lib {
 
         if(entry) {
             destroy_item<Entry>(*entry);
-            this->mem_cache.push_back(entry);
+            this->recycle(entry);
             elements--;
         }
     }
@@ -364,7 +373,7 @@ namespace Srl { namespace Lib {
             V res = std::move(entry->val);
             destroy_item<Entry>(*entry);
 
-            this->mem_cache.push_back(entry);
+            this->recycle(entry);
             elements--;
 
             return res;
-- 
2.43.0


From 660061f089b3418463519fa529bf2504bf037287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 46/48] fix: conv_charset: conversion descriptor was leaked if
 no memory was left

---
 src/lib/ToolsStrConv.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 6f5cee1..a33911b 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -297,6 +297,11 @@ namespace {
 
         return rslt;
     }
+
+    struct CloseDesc {
+        iconv_t desc;
+        ~CloseDesc() { iconv_close(desc); }
+    };
 }
 
 size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
@@ -337,6 +342,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         return 0;
     }
 
+    CloseDesc close_desc { desc };
+
     size_t left_in = str_wrap.size();
     size_t reserve = left_in * (
         target_encoding < src_encoding ? 1 : src_encoding == Encoding::UTF16 ? 2 : 4
@@ -360,7 +367,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EINVAL) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Incomplete byte sequence.");
             }
@@ -368,7 +374,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EILSEQ) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Invalid byte sequence.");
             }
@@ -385,7 +390,5 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
     }
 
-    iconv_close(desc);
-
     return buffer.size() - buffer_index - left_out;
 }
-- 
2.43.0


From bd7937bb2f1fe4e1e5d170fc31046a9dd5d859c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 47/48] fix: a value whose content couldn't be stored stayed in
 the document, referring to memory it doesn't own

---
 src/lib/Environment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 3b3013a..2e914c5 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -132,14 +132,15 @@ Link<Node>* Environment::create_node(Type type, const String& name)
 
 Link<Value>* Environment::store_value(Node& parent, const Value& value, const String& name)
 {
-    auto* link = this->create_link(parent.values, value, name);
-    auto& block = link->field.block;
+    /* the value must own its content before it's linked */
+    Value stored = value;
+    auto& block = stored.block;
 
     if(!block.stored_local && !block.try_store_local()) {
         block.extern_data = Aux::copy(this->heap, { block.extern_data, block.size }).ptr;
     }
 
-    return link;
+    return this->create_link(parent.values, stored, name);
 }
 
 void Environment::write(const Value& value, const String& field_name)
-- 
2.43.0


From bfa3b326ef740bad0403cc83657305ea3d5c1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 48/48] fix: Tree: failing creation of the root node left the
 tree without one

---
 src/lib/Tree.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index e3c7e94..460850d 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -122,7 +122,15 @@ void Tree::create_env(Type tp)
     }
 
     this->env = unique_ptr<Environment>(new Environment(*this));
-    this->root_node = &env->create_node(tp, "")->field;
+
+    try {
+        this->root_node = &env->create_node(tp, "")->field;
+
+    } catch(...) {
+        /* an environment without root node isn't usable */
+        this->env.reset();
+        throw;
+    }
 }
 
 Environment& Tree::get_env()
-- 
2.43.0

