From 0c93bbbfeabefa4c782d63dbf59d615c934197f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 01/25] fix: don't let writes on an already bad cstr/array
 destination corrupt its result

basic_cstr_destination::do_write and array_destination::do_write recorded
the end of the garbage buffer as the end of the content when the destination
was already bad, so that finish() returned a pointer outside of the user's
array and (cstr) wrote the terminator past the end of the garbage buffer,
leaving the user's string unterminated.
---
 include/strf/destination.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..0a641f3 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,6 +372,11 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            this->set_buffer_end(garbage_buff_end<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
@@ -507,6 +512,11 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            this->set_buffer_end(garbage_buff_end<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-- 
2.43.0


From 5628980035d7df503d9423d0fd73c9db58310c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/25] fix: don't write past a failure in
 basic_streambuf_writer::do_write

The string was handed to the streambuf even when the preceding content of
the buffer had been only partially accepted, leaving a hole in the output.
Also, the characters accepted before an exception were not counted.
---
 include/strf/to_streambuf.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..3e097ca 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,9 +86,12 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
             count_ += count_inc;
-            this->set_good(count_inc == count + str_slen);
+            if (count_inc == count) {
+                count_inc = dst_.sputn(str,  str_slen);
+                count_ += count_inc;
+                this->set_good(count_inc == str_slen);
+            }
         }
     }
 
-- 
2.43.0


From 38cc9ff3c8f9f8f44d628173069127dccfe3cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 03/25] fix: turn basic_streambuf_writer bad when the streambuf
 throws in recycle

recycle() discarded the content of the buffer but left the writer in the
good state when sputn threw. Later content was then written after a gap
and finish() reported success.
---
 include/strf/to_streambuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 3e097ca..4673133 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -51,6 +51,7 @@ public:
         const std::streamsize count = this->buffer_ptr() - buf_;
         this->set_buffer_ptr(buf_);
         STRF_IF_LIKELY (this->good()) {
+            this->set_good(false); // in case the following code throws
             auto count_inc = dst_.sputn(buf_, count);
             count_ += count_inc;
             this->set_good(count_inc == count);
-- 
2.43.0


From 3aca6f95ab6e5780de90a9062dbeefe01fbb73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 04/25] fix: make tr() with reserve_calc() create the sized
 destination type

It instantiated the unsized destination type with the result of
create(size), so that, for instance, strf::to_string.reserve_calc().tr(...)
failed to compile.
---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From c10f6f69159c6080db236002c982e8b89a45e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 05/25] fix: stop printing repeated characters when the
 destination turns bad

fmt_char_printer kept filling and recycling the buffer of a bad destination
until all repetitions were done.
---
 include/strf/detail/printable_types/char.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index f39a9f0..d8fe751 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -132,6 +132,9 @@ STRF_HD void fmt_char_printer<CharT>::operator()
             count -= space;
             dst.advance_to(dst.buffer_end());
             dst.flush();
+            if ( ! dst.good()) {
+                break;
+            }
         }
     }
     if (right_fillcount_ > 0) {
-- 
2.43.0


From f624ca8c15baf73659253ed13a0588d6caf036b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 06/25] fix: stop filling with a single byte charset when the
 destination turns bad

single_byte_charset::encode_fill kept filling and recycling the buffer of a
bad destination until all repetitions were done.
---
 include/strf/detail/single_byte_charsets.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..b24fe3e 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -3142,6 +3142,9 @@ STRF_HD void single_byte_charset<CharT, Impl>::encode_fill
         dst.advance_to(dst.buffer_end());
         count -= available;
         dst.flush();
+        if ( ! dst.good()) {
+            return;
+        }
     }
 }
 
-- 
2.43.0


From 0799fe9d7c8b58acf7b66baf01075b399b6b1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 07/25] fix: detach basic_sized_string_maker from the string
 returned by finish()

finish() left the destination good and its buffer inside of the memory of
the returned string, so that anything printed afterwards overwrote (or even
wrote past) the returned string. It is documented that good() is false after
finish().
---
 include/strf/to_string.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d769397..e658acd 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -225,6 +225,10 @@ public:
 
     void recycle() override
     {
+        STRF_IF_UNLIKELY ( ! this->good()) { // finish() has been called
+            this->set_buffer_ptr(strf::garbage_buff<CharT>());
+            return;
+        }
         const auto original_size = detail::safe_cast_size_t(this->buffer_ptr() - str_.data());
         constexpr std::size_t min_buff_size = strf::min_destination_buffer_size;
         auto append_size = strf::detail::max<std::size_t>(original_size, min_buff_size);
@@ -235,7 +239,14 @@ public:
 
     std::basic_string<CharT, Traits, Allocator> finish()
     {
+        STRF_IF_UNLIKELY ( ! this->good()) {
+            return {};
+        }
         str_.resize(detail::safe_cast_size_t(this->buffer_ptr() - str_.data()));
+        // The memory managed by str_ is about to be handed to the caller
+        this->set_good(false);
+        this->set_buffer_ptr(strf::garbage_buff<CharT>());
+        this->set_buffer_end(strf::garbage_buff_end<CharT>());
         return std::move(str_);
     }
 
-- 
2.43.0


From 207a6ab0d27f757045d171bdbaa2ccbc4e2a426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 08/25] fix: recognize CHAR_MAX in lconv::grouping where char
 is signed

According to the C standard, CHAR_MAX means that no further grouping is to
be performed. digits_grouping(const char*), which locale_numpunct() feeds
with lconv::grouping, only recognized '\xFF' and took '\x7F' for a too large
group, dropping the whole grouping.
---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..f98e574 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -410,7 +410,7 @@ STRF_FUNC_IMPL STRF_HD digits_grouping::digits_grouping(const char* str) noexcep
             *this = creator.finish();
             break;
         }
-        if (0 != (ch & 0x80)) {
+        if (0 != (ch & 0x80) || ch == '\x7F') { // '\x7F' is CHAR_MAX when char is signed
             *this = creator.finish_no_more_sep();
             break;
         }
-- 
2.43.0


From 08b8c41eb1ba0a2281a1e83758614b45b094f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 09/25] fix: don't notify a transcoding error twice when
 resuming a transcoding

The transcoding functions notify an error before checking whether there is
space for the replacement character. When there was not, the same error was
notified again after the destination, or the pivot buffer of decode_encode,
was recycled and the transcoding was resumed.
---
 include/strf/detail/facets/charset.hpp | 44 +++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index d005123..bcdcabd 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -1066,6 +1066,34 @@ struct decode_encode_size_result
     transcode_stop_reason stop_reason;
 };
 
+namespace detail {
+
+// Same as func(src, src_end, dst, dst_end, err_notifier, flags), except that
+// nothing is notified about the sequence at the returned src_ptr when the stop
+// reason is insufficient_output_space. This is intended for when the
+// transcoding is to be resumed from there.
+template <typename SrcCharT, typename DstCharT>
+STRF_HD strf::transcode_result<SrcCharT, DstCharT> resumable_transcode
+    ( strf::transcode_f<SrcCharT, DstCharT> func
+    , const SrcCharT* src
+    , const SrcCharT* src_end
+    , DstCharT* dst
+    , DstCharT* dst_end
+    , strf::transcoding_error_notifier* err_notifier
+    , strf::transcode_flags flags )
+{
+    if (err_notifier != nullptr) {
+        const auto res = func(src, src_end, dst, dst_end, nullptr, flags);
+        if (res.stop_reason == strf::transcode_stop_reason::insufficient_output_space) {
+            func(src, res.src_ptr, dst, dst_end, err_notifier, flags);
+            return res;
+        }
+    }
+    return func(src, src_end, dst, dst_end, err_notifier, flags);
+}
+
+} // namespace detail
+
 template <typename SrcCharT, typename DstCharT>
 STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     ( strf::transcode_f<SrcCharT, char32_t> to_u32
@@ -1082,7 +1110,8 @@ STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     while (true) {
         char32_t* pivot = pivot_buff;
         char32_t* pivot_end = pivot_buff + sizeof(pivot_buff) / sizeof(pivot_buff[0]);
-        const auto src_res = to_u32(src, src_end, pivot, pivot_end, err_notifier, flags);
+        const auto src_res = strf::detail::resumable_transcode
+            (to_u32, src, src_end, pivot, pivot_end, err_notifier, flags);
         const auto dst_res = from_u32
             (pivot_buff, src_res.dst_ptr, dst, dst_end, err_notifier, flags);
 
@@ -1174,12 +1203,16 @@ STRF_HD strf::decode_encode_size_result<SrcCharT> decode_encode
     auto* dst_it = dst.buffer_ptr();
     auto* dst_end = dst.buffer_end();
     while (true) {
-        const auto src_res = to_u32(src, src_end, pivot_buff, pivot_end, err_notifier, flags);
+        const auto src_res = strf::detail::resumable_transcode
+            (to_u32, src, src_end, pivot_buff, pivot_end, err_notifier, flags);
 
         char32_t* pivot_it = pivot_buff;
         while (true) {
-            const auto dst_res = from_u32
-                (pivot_it, src_res.dst_ptr, dst_it, dst_end, err_notifier, flags);
+            const auto dst_res = strf::detail::resumable_transcode
+                ( from_u32
+                , static_cast<const char32_t*>(pivot_it)
+                , static_cast<const char32_t*>(src_res.dst_ptr)
+                , dst_it, dst_end, err_notifier, flags );
 
             count += dst_res.dst_ptr - dst_it;
             if (dst_res.stop_reason == stop_reason::completed) {
@@ -1566,7 +1599,8 @@ STRF_HD strf::transcode_size_result<SrcCharT> transcode
     }
     std::ptrdiff_t count = 0;
     while (1) {
-        const auto res = func(src, src_end, dst_it, dst_end, err_notifier, flags);
+        const auto res = strf::detail::resumable_transcode
+            (func, src, src_end, dst_it, dst_end, err_notifier, flags);
         count += res.dst_ptr - dst_it;
         dst.advance_to(res.dst_ptr);
         if (res.stop_reason != stop_reason::insufficient_output_space) {
-- 
2.43.0


From c740858e00ee521d842e41fdf4436134e36879cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 10/25] fix: don't declare noexcept the functions that recycle
 the destination

The destination's recycle() may throw (for instance std::bad_alloc in
a string destination), and the exception ended in std::terminate.
---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++--------
 include/strf/detail/single_byte_charsets.hpp  |  2 +-
 include/strf/detail/utf.hpp                   |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..7769b31 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2310,16 +2310,16 @@ public:
 private:
 
     STRF_HD void print_fixed_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_scientific_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_hexadecimal_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_inf_or_nan_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     strf::encode_char_f<CharT> encode_char_ = nullptr;
     strf::encode_fill_f<CharT> encode_fill_;
@@ -2359,7 +2359,7 @@ STRF_HD void punct_double_printer<CharT>::operator()
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_fixed_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2457,7 +2457,7 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_scientific_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2473,7 +2473,7 @@ STRF_HD void punct_double_printer<CharT>::print_scientific_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     const auto sub_size = data_.sub_chars_count + decimal_point_size_ - data_.showpoint;
     STRF_ASSERT(data_.showpoint == (decimal_point_size_ != 0));
@@ -2539,7 +2539,7 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_inf_or_nan_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index b24fe3e..21f90a9 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2924,7 +2924,7 @@ public:
     {
         return 1;
     }
-    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst) noexcept
+    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst)
     {
         strf::put(dst, static_cast<CharT>('?'));
     }
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..413c321 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -28,7 +28,7 @@ inline STRF_HD void repeat_sequence
     ( strf::transcode_dst<CharT>& dst
     , std::ptrdiff_t count
     , CharT ch0
-    , CharT ch1 ) noexcept
+    , CharT ch1 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 2;
@@ -61,7 +61,7 @@ inline STRF_HD void repeat_sequence
     , std::ptrdiff_t count
     , CharT ch0
     , CharT ch1
-    , CharT ch2 ) noexcept
+    , CharT ch2 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 3;
@@ -96,7 +96,7 @@ inline STRF_HD void repeat_sequence
     , CharT ch0
     , CharT ch1
     , CharT ch2
-    , CharT ch3 ) noexcept
+    , CharT ch3 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 4;
-- 
2.43.0


From f17fea70be913a2f12620e21e22b0ec68ec65411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 11/25] fix: let strings with a run-time charset be printed to
 any character type

---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From f6c0751fbbbe1b4f274126fc7ed17351357f66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 12/25] fix: let the fully dynamic int format be copied to
 another value type

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..c98d9ef 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -879,7 +879,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From cd5be07357ac9ef915b4cb72d49eabc1ece1e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 13/25] fix: ensure enough space before printing a decimal
 integer with sign

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index c98d9ef..b34a941 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From ce49b69f7f477991aab4bc3aa911cc1f0b337e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 14/25] fix: ensure space for the highest group of a punctuated
 binary integer

---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From aee1d50fc7640f788a2042d5fa736dfae28fca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 15/25] fix: accept an empty range in to_range(), as documented

---
 include/strf/printing_syntax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..5d1aec8 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -679,7 +679,7 @@ public:
         : dst_(dst)
         , dst_end_(dst_end)
     {
-        STRF_ASSERT_IN_CONSTEXPR(dst < dst_end);
+        STRF_ASSERT_IN_CONSTEXPR(dst <= dst_end);
     }
 
     STRF_HD typename array_destination<CharT>::range create() const noexcept
-- 
2.43.0


From 67d9f2366aba3f4846dc5b57e13a22cd9fd6139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 16/25] fix: don't declare noexcept a function that reserves
 memory in a string

---
 include/strf/to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index e658acd..6164632 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -300,7 +300,7 @@ public:
     {
         return *str_;
     }
-    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const noexcept
+    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const
     {
         if (size > 0) {
             str_->reserve(str_->size() + size);
-- 
2.43.0


From 33a9dd04c0a2fbff6ae420b4eaaf3df9d2af699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 17/25] fix: don't let the accumulated width of a join overflow

---
 include/strf/detail/premeasurements.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..6b3131e 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_.sat_add(w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return width_ < limit_ && w < limit_ - width_;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
-- 
2.43.0


From c9809d20d299b71ca27ddf15287f8726e510e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 18/25] fix: don't let utf8-to-utf32 unsafe_transcode_size stop
 inside a character

---
 include/strf/detail/utf.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 413c321..890c529 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,12 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
-                return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+            if (detail::not_utf8_continuation(detail::cast_u8(*src_it))) {
+                if (size >= limit){
+                    return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+                }
+                ++size;
             }
-            const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From d153801670ac9d3c6c0b0080e5162b65fc50e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 19/25] fix: let utf8-to-utf8 transcode_size use the whole
 limit, as transcode does

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 890c529..22649d1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1949,7 +1949,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From fcd59feb9ca2aa7d7d894865f5c75e99568c5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 20/25] fix: make transcode_size to single-byte charsets agree
 with transcode about U+FFFD, U+D800 and 0x110000

---
 include/strf/detail/single_byte_charsets.hpp | 26 ++++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 21f90a9..a6c2689 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -130,6 +130,16 @@ struct sbcs_never_has_invalid_seq_crtp
 template <typename T>
 struct sbcs_find_unsupported_codepoint_crtp
 {
+    // whether utf32_to_single_byte_charset<...>::transcode treats ch as an
+    // invalid sequence when the surrogate policy is strict
+    template <typename CharT>
+    static STRF_HD bool is_invalid_codepoint(CharT ch) noexcept
+    {
+        return ( ch >= 0x110000
+              || ( 0xD800 <= ch && ch <= 0xFFFF
+                && T::encode(static_cast<char32_t>(ch)) >= 0x100 ));
+    }
+
     template <typename CharT>
     static STRF_HD strf::transcode_size_result<CharT> find_first_invalid_codepoint
         ( const CharT* src
@@ -143,7 +153,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_codepoint(*it)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
@@ -159,7 +169,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_codepoint(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -188,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_codepoint(*it)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +220,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_codepoint(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +256,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( ! is_invalid_codepoint(*it)
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +275,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( ! is_invalid_codepoint(*it)
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +286,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
-- 
2.43.0


From cb2f45687b7dac8f97016234f46ae471e084d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 21/25] fix: composed transcoding notified invalid sequences
 before earlier unsupported characters

---
 include/strf/detail/facets/charset.hpp | 39 ++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index bcdcabd..938d941 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -1092,6 +1092,41 @@ STRF_HD strf::transcode_result<SrcCharT, DstCharT> resumable_transcode
     return func(src, src_end, dst, dst_end, err_notifier, flags);
 }
 
+// Decodes a part of the input. When there is a notifier, an invalid sequence is
+// decoded alone, so that it is not notified before the unsupported codepoints
+// that precede it. That is not done when flags demand to stop at both kinds of
+// errors: then a part never has more than one invalid sequence, at its end, and
+// it is notified even if there is an unsupported codepoint before it.
+template <typename SrcCharT>
+STRF_HD strf::transcode_result<SrcCharT, char32_t> decode_part
+    ( strf::transcode_f<SrcCharT, char32_t> to_u32
+    , const SrcCharT* src
+    , const SrcCharT* src_end
+    , char32_t* dst
+    , char32_t* dst_end
+    , strf::transcoding_error_notifier* err_notifier
+    , strf::transcode_flags flags )
+{
+    using stop_reason = strf::transcode_stop_reason;
+    if ( err_notifier == nullptr
+      || ( strf::with_stop_on_invalid_sequence(flags)
+        && strf::with_stop_on_unsupported_codepoint(flags) )) {
+        return strf::detail::resumable_transcode
+            (to_u32, src, src_end, dst, dst_end, err_notifier, flags);
+    }
+    auto res = to_u32
+        ( src, src_end, dst, dst_end, nullptr
+        , flags | strf::transcode_flags::stop_on_invalid_sequence );
+    if (res.stop_reason == stop_reason::invalid_sequence) {
+        if (res.dst_ptr == dst) {
+            return strf::detail::resumable_transcode
+                (to_u32, src, src_end, dst, dst + 1, err_notifier, flags);
+        }
+        res.stop_reason = stop_reason::insufficient_output_space;
+    }
+    return res;
+}
+
 } // namespace detail
 
 template <typename SrcCharT, typename DstCharT>
@@ -1110,7 +1145,7 @@ STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     while (true) {
         char32_t* pivot = pivot_buff;
         char32_t* pivot_end = pivot_buff + sizeof(pivot_buff) / sizeof(pivot_buff[0]);
-        const auto src_res = strf::detail::resumable_transcode
+        const auto src_res = strf::detail::decode_part
             (to_u32, src, src_end, pivot, pivot_end, err_notifier, flags);
         const auto dst_res = from_u32
             (pivot_buff, src_res.dst_ptr, dst, dst_end, err_notifier, flags);
@@ -1203,7 +1238,7 @@ STRF_HD strf::decode_encode_size_result<SrcCharT> decode_encode
     auto* dst_it = dst.buffer_ptr();
     auto* dst_end = dst.buffer_end();
     while (true) {
-        const auto src_res = strf::detail::resumable_transcode
+        const auto src_res = strf::detail::decode_part
             (to_u32, src, src_end, pivot_buff, pivot_end, err_notifier, flags);
 
         char32_t* pivot_it = pivot_buff;
-- 
2.43.0


From d91f83f69a24ce23b3dfde2b486cdb08a954fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 22/25] fix: don't let the accumulated width of a tr-string
 overflow

---
 include/strf/detail/tr_printer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..bf9d226 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_.sat_add(index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +169,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +219,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_.sat_add(width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_.sat_add(1);
         }
         return {};
     }
@@ -230,7 +230,7 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From 103d804cff18afbb4d42fe3928a97cb663180902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 23/25] fix: width_as_u32len failed an assertion when a string
 has more than 32767 codepoints

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..811d527 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From 00d259f0c8ceb5205fcf880ed4debb412678fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 24/25] fix: sign not counted in the size of a floating-point
 value rounded up to one digit

In general notation with a precision, when rounding leaves the single digit 1,
the size and width of the sign were forgotten.
---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 7769b31..79ff40e 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1652,7 +1652,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1661,7 +1661,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From 9ae4fdc104d74da8c2e3cdfd1b37ab25f2ec5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 25/25] fix: thousands separators miscounted when rounding adds
 a digit to a floating-point value

In fixed notation with a precision, 999.5 becomes 1000, which may need one
separator more than 999.
---
 include/strf/detail/printable_types/float.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 79ff40e..6fa2ef0 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1921,6 +1921,10 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        const auto sep_count = static_cast<detail::chars_count_t>
+                            (grouping.separators_count(1 + data.e10));
+                        data.sub_chars_count += sep_count - data.sep_count;
+                        data.sep_count = sep_count;
                     }
                 }
             }
-- 
2.43.0

