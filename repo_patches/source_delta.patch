From dcb90c0e058d56acaa0d29631144ce114b2ce765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/21] fix: do not read the byte at the end of the buffer
 while scanning

---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 34 ++++++++++++++++-----------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..3a9e01f 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..0136388 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -331,10 +331,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -344,7 +344,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -356,7 +356,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -397,10 +397,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -415,14 +415,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -436,7 +436,7 @@ namespace pigo {
             while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
 
             // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (d >= end || *d < '0' || *d > '9') {
                 move_to_eol();
                 break;
             }
@@ -444,7 +444,7 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
-            if (*d == '\n') break;
+            if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
                 break;
@@ -454,11 +454,11 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (*d == ' ') { ++d; };
+            while (d < end && *d == ' ') { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-            if (*d == '\n') {
+            if (d >= end || *d == '\n') {
                 --space_ct;
                 break;
             }
@@ -482,14 +482,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
+        if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
             --d;        // This will end at a newline
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
-            if (*d == '%' || *d == '#') {
+            if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
                 --d;
                 return;
@@ -559,7 +559,7 @@ namespace pigo {
             size_t tid_c = 0;
             while (rs_p1.good()) {
                 rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+                if (rs_p1.d < r.end && *rs_p1.d == c)
                     ++tid_c;
             }
 
@@ -614,7 +614,7 @@ namespace pigo {
                 tid_c = c_offsets[tid-1];
             while (rs_p1.good()) {
                 rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
+                if (rs_p1.d < r.end && *rs_p1.d == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
                 }
-- 
2.43.0


From 1c5a4e6ac5c7d7ffe7460be11aeb156bc1b90d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/21] fix: load the last edge of a file that does not end in
 a newline

---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..f7c6ae9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -232,9 +232,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -254,9 +254,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -302,9 +302,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From f9f76b971b03f7746304408b99942daab0807eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/21] fix: read a weight only from its own line and only for
 a kept entry

The weight of a filtered entry was stored before the filter, past the
allocated end or over another thread's first weight, and a missing weight
was taken from the next line so that the two passes disagreed.
---
 include/pigo/impl/coo.impl.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index f7c6ae9..e92d2a9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,20 +229,15 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -256,15 +251,15 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
+                // The weight is read from the rest of this line only, and
+                // only once it is known that the entry is kept
+                FileReader wr = r;
                 r.move_to_eol();
+                wr.smaller_end(r);
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
+                read_wgt_<wgt, W, WS, false>(coord_pos, w_, wr);
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -304,8 +299,11 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
+                // The weight is read from the rest of this line only
+                FileReader wr = r;
                 r.move_to_eol();
+                wr.smaller_end(r);
+                read_wgt_<wgt, W, WS, false>(coord_pos, w_, wr);
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
-- 
2.43.0


From 3412d55765a983ed5f78b8996f9d525606098c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 04/21] fix: moving a File transfers the mapping, position and
 name

The move constructor left the source owning the mapping as well, so it was
unmapped twice, and neither move carried the position and name over.
---
 include/pigo.hpp                | 9 ++++++---
 include/pigo/impl/pigo.impl.hpp | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 3a9e01f..b6bb02a 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -314,9 +314,12 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(std::move(o.fn_)) {
+                // The mapping has a single owner
+                o.data_ = nullptr;
+                o.fp_ = nullptr;
+                o.size_ = 0;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0136388..433439d 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,7 +91,11 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = std::move(o.fn_);
             o.data_ = nullptr;
+            o.fp_ = nullptr;
+            o.size_ = 0;
         }
         return *this;
     }
-- 
2.43.0


From dc1aeefff391d1949443970fff73dca179b2d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 05/21] fix: refuse to read or write a File beyond its end

A truncated binary file was read past the end of its mapping.
---
 include/pigo.hpp                | 11 +++++++++++
 include/pigo/impl/pigo.impl.hpp | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index b6bb02a..1621ddb 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -294,6 +294,17 @@ namespace pigo {
             FilePos fp_;
             /** The filename */
             std::string fn_;
+
+            /** @brief Throw unless there is enough of the file left
+             *
+             * @param count the number of items about to be accessed
+             * @param item_size the size of each of the items in bytes
+             */
+            void check_left_(size_t count, size_t item_size) {
+                size_t left = (data_+size_)-fp_;
+                if (item_size > 0 && count > left/item_size)
+                    throw Error("Accessing beyond the end of the file");
+            }
         public:
             /** @brief Opens the given file
              *
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 433439d..0ed7e29 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -103,6 +103,7 @@ namespace pigo {
     template<class T>
     inline
     T File::read() {
+        check_left_(1, sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -114,19 +115,31 @@ namespace pigo {
         fp_ += s.size();
     }
 
+    namespace detail {
+        /** The number of bytes taken in a file by a value */
+        template<class T>
+        inline
+        size_t binary_size_(const T&) { return sizeof(T); }
+        inline
+        size_t binary_size_(const std::string& s) { return s.size(); }
+    }
+
     template<class T>
     inline
     void File::write(T val) {
+        check_left_(1, detail::binary_size_(val));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_left_(v_size, 1);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_left_(v_size, 1);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
-- 
2.43.0


From 3401c26997cc2c41de067c7c65aff15097407f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 06/21] fix: refuse a binary file that is shorter than its
 header announces

---
 include/pigo.hpp                  | 6 ++++--
 include/pigo/impl/coo.impl.hpp    | 6 ++++++
 include/pigo/impl/csr.impl.hpp    | 7 +++++++
 include/pigo/impl/tensor.impl.hpp | 7 +++++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 1621ddb..03a163c 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -301,8 +301,7 @@ namespace pigo {
              * @param item_size the size of each of the items in bytes
              */
             void check_left_(size_t count, size_t item_size) {
-                size_t left = (data_+size_)-fp_;
-                if (item_size > 0 && count > left/item_size)
+                if (item_size > 0 && count > left()/item_size)
                     throw Error("Accessing beyond the end of the file");
             }
         public:
@@ -390,6 +389,9 @@ namespace pigo {
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
+            /** @brief Return the bytes left after the current position */
+            size_t left() { return (data_+size_)-fp_; }
+
             /** @brief Auto-detect the file type
              *
              * This will determine the file type based on a mixture of the
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index e92d2a9..28d263b 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -545,6 +545,12 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure that the entries can fit in the file, so that computing
+        // their total size below cannot overflow
+        if ((size_t)m_ > f.left()/sizeof(L)) throw Error("COO binary file is too short");
+        if (detail::if_true_<wgt>() && (size_t)m_ > f.left()/sizeof(W))
+            throw Error("COO binary file is too short");
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..16b65ce 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -507,6 +507,13 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure that the contents can fit in the file, so that computing
+        // their total size below cannot overflow
+        if ((size_t)n_ >= f.left()/sizeof(O)) throw Error("CSR binary file is too short");
+        if ((size_t)m_ > f.left()/sizeof(L)) throw Error("CSR binary file is too short");
+        if (detail::if_true_<wgt>() && (size_t)m_ > f.left()/sizeof(W))
+            throw Error("CSR binary file is too short");
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..0b7ea94 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -268,6 +268,13 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure that the contents can fit in the file, so that computing
+        // their total size below cannot overflow
+        if (order_ != 0 && (size_t)m_ > f.left()/sizeof(L)/(size_t)order_)
+            throw Error("Tensor binary file is too short");
+        if (detail::if_true_<wgt>() && (size_t)m_ > f.left()/sizeof(W))
+            throw Error("Tensor binary file is too short");
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From 16520fd4dbb789abfb99af01a0d9e74c466fe01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 07/21] fix: at_str matches a string that ends exactly at the
 end of the file

---
 include/pigo/impl/pigo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0ed7e29..aa73233 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -522,7 +522,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (s.size() > size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From 5e2b44e67fc1bf13b86c2fcff46927b7be58b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 08/21] fix: write and read the minimum of signed integer types

---
 include/pigo/impl/coo.impl.hpp  |  3 ++-
 include/pigo/impl/pigo.impl.hpp | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 28d263b..27cbdb9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -162,7 +162,8 @@ namespace pigo {
                 r.move_to_next_signed_int();
 
                 W sign = r.read_sign<W>();
-                W val = r.read_int<W>()*sign;
+                W val = r.read_int<W>();
+                if (sign < 0) val = (W)(0ULL-(unsigned long long)val);
                 set_value_(ws, coord_pos, val);
             }
         };
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index aa73233..95aea18 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -237,9 +237,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            typedef typename std::make_unsigned<T>::type U;
+            // The magnitude of the minimum does not fit in T
+            if (obj < 0) return (U)(0ULL-(unsigned long long)obj);
+            return (U)obj;
         }
     }
 
@@ -297,15 +299,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
@@ -329,7 +331,9 @@ namespace pigo {
     template<typename T>
     inline
     T FileReader::read_int() {
-        T res = 0;
+        // Accumulate unsigned, signed types cannot hold the magnitude of
+        // their minimum
+        unsigned long long res = 0;
         while (d < end && (*d < '0' || *d > '9')) ++d;
 
         // Read out digit by digit
@@ -337,7 +341,7 @@ namespace pigo {
             res = res*10 + (*d-'0');
             ++d;
         }
-        return res;
+        return (T)res;
     }
 
     template<typename T>
-- 
2.43.0


From 717a42e99f8d024054ed93b495daf1088bb1e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 09/21] fix: set the row and column counts of a COO built from
 a CSR

The row and column counts were left uninitialised.
---
 include/pigo/impl/coo.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 27cbdb9..ac29524 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -68,6 +68,13 @@ namespace pigo {
         // First, set our sizes and allocate space
         n_ = csr.n();
         m_ = csr.m();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
+        if (detail::if_true_<sym>()) {
+            // Any row label can become a column label and vice versa
+            if (nrows_ < ncols_) nrows_ = ncols_;
+            else ncols_ = nrows_;
+        }
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
-- 
2.43.0


From 55f26453bdef33190835c6745872319ae582ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 10/21] fix: find_offsets reports an occurrence at the start of
 the range

---
 include/pigo/impl/pigo.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 95aea18..f4fb136 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -578,6 +578,9 @@ namespace pigo {
 
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
+            // The first character is not passed over by moving
+            if (tid == 0 && rs_p1.good() && *rs_p1.d == c)
+                ++tid_c;
             while (rs_p1.good()) {
                 rs_p1.move_to(c);
                 if (rs_p1.d < r.end && *rs_p1.d == c)
@@ -633,6 +636,10 @@ namespace pigo {
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
+            else if (rs_p1.good() && *rs_p1.d == c) {
+                detail::set_value_(t_c, tid_c, 0);
+                ++tid_c;
+            }
             while (rs_p1.good()) {
                 rs_p1.move_to(c);
                 if (rs_p1.d < r.end && *rs_p1.d == c) {
-- 
2.43.0


From 00d880566cea982b3e032cad9e3e5622a33b44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 11/21] fix: find the order of a tensor whose first line has an
 exponent or a carriage return

---
 include/pigo/impl/pigo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index f4fb136..e8e1c68 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -462,8 +462,8 @@ namespace pigo {
                 break;
             }
 
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
+            // Read through the number
+            move_to_non_fp();
 
             if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
@@ -475,7 +475,7 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (d < end && *d == ' ') { ++d; };
+            while (d < end && (*d == ' ' || *d == '\t' || *d == '\r')) { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-- 
2.43.0


From ff751016e32b549257999d9d6aded9015857a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 12/21] fix: both passes of tensor loading read the same
 entries

The last line of a file without a final newline, or a line with too few
numbers, was not counted but still written, past the allocated end.
---
 include/pigo/impl/tensor.impl.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 0b7ea94..694ebb4 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -49,7 +49,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*(size_t)m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -61,15 +61,8 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
-            static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
-                for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
-                    if (!r.good()) return;
-                }
+            static inline void op_(O, S&, WS&, size_t &coord_pos, FileReader &r) {
+                // Each line is an entry
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
@@ -80,14 +73,17 @@ namespace pigo {
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
+                // Each line is an entry, so only read from this line
+                FileReader line = r;
+                r.move_to_eol();
+                line.smaller_end(r);
+
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
-                    if (!r.good()) return;
+                    L v = line.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
+                read_wgt_<wgt, W, WS, false>(coord_pos, w_, line);
 
-                r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
             }
-- 
2.43.0


From 1fa806aa3210f1f365465b6f17c6e1c1c9ab378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 13/21] fix: read adjacency lists independently of comments and
 chunk boundaries

Chunk boundaries inside a comment made its digits data, comment lines counted
as rows, empty rows after the header were skipped, a comment directly after a
number gave the two passes different rows, and threads raced on the bits of a
vector<bool>.
---
 include/pigo/impl/csr.impl.hpp  | 43 ++++++++++++++++++++++++---------
 include/pigo/impl/pigo.impl.hpp | 14 ++++-------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 16b65ce..d7239ed 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -274,7 +274,10 @@ namespace pigo {
         r.move_to_next_int();
         O read_m = r.read_int<O>();
         r.move_to_eol();
-        r.move_to_next_int();
+        // The first row is on the next line that is not a comment. It can
+        // be empty.
+        r += 1;
+        r.skip_comments();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -284,7 +287,7 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
@@ -301,24 +304,34 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Now, move to the appropriate starting point
-            re.move_to_next_int();
+            // Now, move to the appropriate starting point, which is the
+            // start of a line so that comments are not split
+            re.move_to_eol();
+            re += 1;
+            re.skip_comments();
             if (tid != 0) {
-                rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+                rs.move_to_eol();
+                rs += 1;
+                rs.skip_comments();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
             rs.smaller_end(re);
 
+            // Move to the first integer or newline
+            if (!rs.at_nl_or_eol() && (rs.peek() < '0' || rs.peek() > '9'))
+                rs.move_to_next_int_or_nl();
+
             // Now, perform the first pass and count
             FileReader rs_p1 = rs;
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool open_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
+                open_row = !rs_p1.at_nl_or_eol();
+                if (!open_row)
                     ++tid_nls;
                 else
                     ++tid_ints;
@@ -328,6 +341,9 @@ namespace pigo {
 
                 rs_p1.move_to_next_int_or_nl();
             }
+            // The last row may not end in a newline. Its end is m_, which
+            // is set below.
+            if (open_row) ++tid_nls;
             if (my_have_zero) {
                 have_zeros[tid] = true;
             }
@@ -367,7 +383,6 @@ namespace pigo {
                 // Now, allocate the space appropriately
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
                 allocate_();
                 detail::set_value_(offsets_, 0, 0);
                 if (!have_zero)
@@ -403,7 +418,7 @@ namespace pigo {
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
+                    if (rs_p2.good() && rs_p2.peek() != '\n')
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
@@ -412,8 +427,12 @@ namespace pigo {
 
         if (m_ == 2*read_m) {}
         else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        // Rows that start at 1 come after an empty row 0
+        nrows_ = read_n + (have_zero ? 0 : 1);
+        if (n_ < nrows_) throw Error("Mismatch in CSR newlines and header");
+        if (detail::get_value_<OS, O>(offsets_, nrows_) != m_)
+            throw Error("Mismatch in CSR rows and header");
+        n_ = read_n;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index e8e1c68..d6e9a46 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -501,20 +501,16 @@ namespace pigo {
         if (d < end && *d == '\n') {
             if (at_int) return;     // We have now reached a newline
             ++d; // Move through a newline
+            skip_comments(); // Comment lines do not count as lines
         }
 
-        if (d < end && (*d == '%' || *d == '#')) {
-            skip_comments();
-            --d;        // This will end at a newline
-            return;
-        }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
-            if (d < end && (*d == '%' || *d == '#')) {
-                skip_comments();
-                --d;
+            if (*d == '%' || *d == '#') {
+                // The line ends with a comment
+                move_to_eol();
                 return;
             }
+            ++d;
         }
     }
 
-- 
2.43.0


From b6c003e3c3e6e92a2ff6ba5b3cef3bbd08956919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 14/21] fix: keep the weights of a CSR with vector storage
 alive while converting it

---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index ac29524..87c3c52 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -92,7 +92,7 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
-- 
2.43.0


From 52fcbaa36d84d34abfe3eb45b7d8753f4d236ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 15/21] fix: a CSR with the largest vertex count its label type
 holds has n+1 offsets

---
 include/pigo/impl/csr.impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index d7239ed..d2f1248 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -70,7 +70,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)n_+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -452,7 +452,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -490,7 +490,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -536,7 +536,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
-- 
2.43.0


From cc90106e0282a21aedf24927e2a2e4d8b329c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 16/21] fix: an exponent is read without recursing once per
 exponent character

---
 include/pigo.hpp                | 4 +++-
 include/pigo/impl/pigo.impl.hpp | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 03a163c..1b8c245 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -78,9 +78,11 @@ namespace pigo {
 
             /** @brief Read a floating point value from the file
             *
+            * @tparam exponent whether the value may have an exponent (an
+            *         exponent does not have an exponent of its own)
             * @return the newly read floating point
             */
-            template<typename T>
+            template<typename T, bool exponent = true>
             T read_fp();
 
             /** @brief Read the sign value from an integer
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index d6e9a46..6cb5d51 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -344,7 +344,7 @@ namespace pigo {
         return (T)res;
     }
 
-    template<typename T>
+    template<typename T, bool exponent>
     inline
     T FileReader::read_fp() {
         T res = 0.0;
@@ -377,9 +377,9 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (d < end && (*d == 'e' || *d == 'E')) {
+        if (exponent && d < end && (*d == 'e' || *d == 'E')) {
             ++d;
-            T exp = read_fp<T>();
+            T exp = read_fp<T, false>();
             res *= std::pow(10., exp);
         }
 
-- 
2.43.0


From 191de98dec76bc64f91c37685c984698c525c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 17/21] fix: refuse to allocate raw storage whose size in bytes
 does not fit size_t

---
 include/pigo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 1b8c245..ca02d8a 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -517,6 +517,8 @@ namespace pigo {
         template<typename T>
         struct allocate_impl_<true, T, true, false, false> {
             static void op_(T& it, size_t nmemb) {
+                if (nmemb > (size_t)-1/sizeof(*(T){nullptr}))
+                    throw Error("Unable to allocate");
                 it = static_cast<T>(malloc(sizeof(*(T){nullptr})*nmemb));
                 if (it == NULL)
                     throw Error("Unable to allocate");
-- 
2.43.0


From 7bf04edcb9b3847ac475e870c48fad37f055bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:13 +0000
Subject: [PATCH 18/21] fix: a tensor copy covers every coordinate when their
 number exceeds the ordinal type

---
 include/pigo/tensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..255c787 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -106,7 +106,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*(size_t)m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
-- 
2.43.0


From 5fee02928a9819ce8ee84907de4d99a6698fa0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:13 +0000
Subject: [PATCH 19/21] fix: index tensor coordinates with size_t when writing
 text and taking maxima

---
 include/pigo/impl/tensor.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 694ebb4..71aa150 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -321,7 +321,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -358,7 +358,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -403,7 +403,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-- 
2.43.0


From 977dd7dc1603c2048d5dba0ec2dce6a83aebec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:17 +0000
Subject: [PATCH 20/21] fix: writing a COO without entries as text makes an
 empty file instead of ending the program

---
 include/pigo/impl/coo.impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 87c3c52..a9d957d 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -580,6 +580,14 @@ namespace pigo {
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     void COO<L,O,S,sym,ut,sl,wgt,W,WS>::write(std::string fn) {
+        if (m_ == 0) {
+            // There is nothing to write, and an empty range cannot be mapped
+            FILE *e_f = fopen(fn.c_str(), "w");
+            if (e_f == NULL) throw Error("PIGO: Unable to open file for writing");
+            if (fclose(e_f) != 0) throw Error("PIGO: Unable to close new file");
+            return;
+        }
+
         // Writing occurs in two passes
         // First, each thread will simulate writing and compute how the
         // space taken
-- 
2.43.0


From 4ac24fb89c4b5b6648753882783bc327a6537cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:17 +0000
Subject: [PATCH 21/21] fix: writing a tensor without entries as text makes an
 empty file instead of ending the program

---
 include/pigo/impl/tensor.impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 71aa150..e1fa64c 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -288,6 +288,14 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::write(std::string fn) {
+        if (m_ == 0) {
+            // There is nothing to write, and an empty range cannot be mapped
+            FILE *e_f = fopen(fn.c_str(), "w");
+            if (e_f == NULL) throw Error("PIGO: Unable to open file for writing");
+            if (fclose(e_f) != 0) throw Error("PIGO: Unable to close new file");
+            return;
+        }
+
         // Writing occurs in two passes
         // First, each thread will simulate writing and compute how the
         // space taken
-- 
2.43.0

