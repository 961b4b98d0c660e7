From 4c1404fa969d9b665ca7d9de4ff6665ab688371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 01/40] fix: keep file position and release ownership when
 moving a File

---
 include/pigo.hpp                | 6 +++---
 include/pigo/impl/pigo.impl.hpp | 2 ++
 release/pigo.hpp                | 8 +++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..d76c375 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -314,9 +314,9 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(o.fn_) {
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..bdac1f5 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,6 +91,8 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = o.fn_;
             o.data_ = nullptr;
         }
         return *this;
diff --git a/release/pigo.hpp b/release/pigo.hpp
index a5a106f..359a256 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -354,9 +354,9 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(o.fn_) {
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
@@ -3038,6 +3038,8 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = o.fn_;
             o.data_ = nullptr;
         }
         return *this;
-- 
2.43.0


From 3c1c4d40f834735afe60d32d261bbfec649a4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 02/40] fix: do not read past the end of the file in FileReader
 number scanning

---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 18 +++++++++---------
 release/pigo.hpp                | 24 ++++++++++++------------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index d76c375..b26cadd 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index bdac1f5..556093b 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -333,10 +333,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -346,7 +346,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -358,7 +358,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -399,10 +399,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
@@ -417,14 +417,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 359a256..5af05d8 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -133,7 +133,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -274,9 +274,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
@@ -3280,10 +3280,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -3293,7 +3293,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -3305,7 +3305,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -3346,10 +3346,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
@@ -3364,14 +3364,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        if (d < end && (*d == '%' || *d == '#')) skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            if (d < end && (*d == '%' || *d == '#')) skip_comments();
         }
     }
 
-- 
2.43.0


From 60f38de5e04a250023b455a924f98f89a7615910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/40] fix: match a string that fills the rest of the file in
 FileReader::at_str

---
 include/pigo/impl/pigo.impl.hpp | 2 +-
 release/pigo.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 556093b..79d5f92 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -507,7 +507,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (d + s.size() > end) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 5af05d8..3315de3 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3454,7 +3454,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (d + s.size() > end) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From ea804e1cbebe6c1b39552e51b3b6ef21feaf4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 04/40] fix: reject truncated or corrupt binary files instead
 of accessing memory out of bounds

---
 include/pigo.hpp                  | 13 +++++++++++
 include/pigo/impl/coo.impl.hpp    |  3 +++
 include/pigo/impl/csr.impl.hpp    |  6 +++++
 include/pigo/impl/pigo.impl.hpp   | 11 +++++++++
 include/pigo/impl/tensor.impl.hpp |  4 ++++
 release/pigo.hpp                  | 37 +++++++++++++++++++++++++++++++
 6 files changed, 74 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index b26cadd..6a97eb5 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -373,6 +373,19 @@ namespace pigo {
             */
             void parallel_read(char* v, size_t v_size);
 
+            /** @brief Ensure there is space remaining in the file
+             *
+             * This will throw an error if the elements do not fit between
+             * the current file position and the end of the file.
+             *
+             * @param count the number of elements to access
+             * @param el_size the size in bytes of each element
+             */
+            void check_remaining(size_t count, size_t el_size=1) {
+                if (el_size > 0 && count > (size_t)(data_+size_-fp_)/el_size)
+                    throw Error("accessing beyond end of file");
+            }
+
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..6464b4c 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -547,6 +547,9 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all of the entries
+        f.check_remaining(m_, 2*sizeof(L)+detail::weight_size_<wgt, W, O>(1));
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..e2c02af 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -507,6 +507,12 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure the file holds all of the offsets and endpoints
+        f.check_remaining((size_t)n_+1, sizeof(O));
+        f.check_remaining(m_, sizeof(L)+detail::weight_size_<wgt, W, O>(1));
+        f.check_remaining(((size_t)n_+1)*sizeof(O)+m_*(sizeof(L)
+                    +detail::weight_size_<wgt, W, O>(1)));
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 79d5f92..2b09630 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -101,6 +101,7 @@ namespace pigo {
     template<class T>
     inline
     T File::read() {
+        check_remaining(sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -115,16 +116,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        check_remaining(sizeof(T));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_remaining(v_size);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_remaining(v_size);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
@@ -187,6 +191,13 @@ namespace pigo {
         }
     }
 
+    template<>
+    inline
+    void File::write(std::string val) {
+        check_remaining(val.size());
+        return ::pigo::write(fp_, val);
+    }
+
     namespace detail {
         template<typename T, typename std::enable_if<!std::is_signed<T>::value, bool>::type = false>
         inline
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..b5b48c0 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -268,6 +268,10 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all of the entries
+        f.check_remaining(order_, sizeof(L));
+        f.check_remaining(m_, sizeof(L)*order_+detail::weight_size_<wgt, W, O>(1));
+
         // Allocate space
         allocate_();
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 3315de3..fa9724d 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -413,6 +413,19 @@ namespace pigo {
             */
             void parallel_read(char* v, size_t v_size);
 
+            /** @brief Ensure there is space remaining in the file
+             *
+             * This will throw an error if the elements do not fit between
+             * the current file position and the end of the file.
+             *
+             * @param count the number of elements to access
+             * @param el_size the size in bytes of each element
+             */
+            void check_remaining(size_t count, size_t el_size=1) {
+                if (el_size > 0 && count > (size_t)(data_+size_-fp_)/el_size)
+                    throw Error("accessing beyond end of file");
+            }
+
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
@@ -3048,6 +3061,7 @@ namespace pigo {
     template<class T>
     inline
     T File::read() {
+        check_remaining(sizeof(T));
         return ::pigo::read<T>(fp_);
     }
 
@@ -3062,16 +3076,19 @@ namespace pigo {
     template<class T>
     inline
     void File::write(T val) {
+        check_remaining(sizeof(T));
         return ::pigo::write(fp_, val);
     }
 
     inline
     void File::parallel_write(char* v, size_t v_size) {
+        check_remaining(v_size);
         ::pigo::parallel_write(fp_, v, v_size);
     }
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        check_remaining(v_size);
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
@@ -3134,6 +3151,13 @@ namespace pigo {
         }
     }
 
+    template<>
+    inline
+    void File::write(std::string val) {
+        check_remaining(val.size());
+        return ::pigo::write(fp_, val);
+    }
+
     namespace detail {
         template<typename T, typename std::enable_if<!std::is_signed<T>::value, bool>::type = false>
         inline
@@ -4180,6 +4204,9 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all of the entries
+        f.check_remaining(m_, 2*sizeof(L)+detail::weight_size_<wgt, W, O>(1));
+
         // Allocate space
         allocate_();
 
@@ -4784,6 +4811,12 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure the file holds all of the offsets and endpoints
+        f.check_remaining((size_t)n_+1, sizeof(O));
+        f.check_remaining(m_, sizeof(L)+detail::weight_size_<wgt, W, O>(1));
+        f.check_remaining(((size_t)n_+1)*sizeof(O)+m_*(sizeof(L)
+                    +detail::weight_size_<wgt, W, O>(1)));
+
         // Allocate space
         allocate_();
 
@@ -5338,6 +5371,10 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all of the entries
+        f.check_remaining(order_, sizeof(L));
+        f.check_remaining(m_, sizeof(L)*order_+detail::weight_size_<wgt, W, O>(1));
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From 65fb3766eb7c6ab7ebd9319aaaa8eea213d87886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 05/40] fix: keep the last edge list entry when the file does
 not end in a newline

---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 release/pigo.hpp               | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 6464b4c..072ae94 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -232,9 +232,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -254,9 +254,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -302,9 +302,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
diff --git a/release/pigo.hpp b/release/pigo.hpp
index fa9724d..0c872c9 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3889,9 +3889,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -3911,9 +3911,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -3959,9 +3959,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 475998cc5d6a1b3bb6e7d4b0f6d8c1b770d0108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 06/40] fix: do not store weights of removed entries over other
 entries

---
 include/pigo/impl/coo.impl.hpp | 25 ++++++++++++-------------
 release/pigo.hpp               | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 072ae94..2d0f70f 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,7 +229,7 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
@@ -237,12 +237,8 @@ namespace pigo {
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -256,15 +252,18 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
+                // Removed entries must not store their weight, as the
+                // position may belong to the next entry or thread
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 0c872c9..d70e61e 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3886,7 +3886,7 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
@@ -3894,12 +3894,8 @@ namespace pigo {
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (if_true_<sl>() && x == y) return;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -3913,15 +3909,18 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
+                // Removed entries must not store their weight, as the
+                // position may belong to the next entry or thread
+                if ((if_true_<sl>() && x == y) ||
+                        (!if_true_<sym>() && if_true_<ut>() && x > y)) {
+                    read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
+                    r.move_to_eol();
+                    r.move_to_next_int();
+                    return;
+                }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
-- 
2.43.0


From 4eeace80d941c7c3d3481e91419af64bb636dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 07/40] fix: account for symmetrized entries in the number of
 rows and columns

---
 include/pigo/impl/coo.impl.hpp | 8 ++++++++
 release/pigo.hpp               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 2d0f70f..c2ab127 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -276,6 +276,8 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -341,6 +343,12 @@ namespace pigo {
         r.move_to_eol();
         r.move_to_next_int();
 
+        // A symmetrized matrix is square
+        if (detail::if_true_<sym>()) {
+            if (nrows < ncols) nrows = ncols;
+            else ncols = nrows;
+        }
+
         // Now, read out the actual contents
         read_el_(r);
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index d70e61e..98f1ba1 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3933,6 +3933,8 @@ namespace pigo {
                     set_value_(y_, coord_pos, x);
                     set_value_(x_, coord_pos, y);
                     ++coord_pos;
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
@@ -3998,6 +4000,12 @@ namespace pigo {
         r.move_to_eol();
         r.move_to_next_int();
 
+        // A symmetrized matrix is square
+        if (detail::if_true_<sym>()) {
+            if (nrows < ncols) nrows = ncols;
+            else ncols = nrows;
+        }
+
         // Now, read out the actual contents
         read_el_(r);
 
-- 
2.43.0


From 84eeca242a43940a4ad6053c15cc0793d1f2fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/40] fix: swap the number of rows and columns when
 transposing a COO

---
 include/pigo/coo.hpp | 1 +
 release/pigo.hpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 649a665..cb20d99 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -336,6 +336,7 @@ namespace pigo {
             /** @brief Transpose the COO, swapping x and y */
             COO& transpose() {
                 std::swap(x_, y_);
+                std::swap(nrows_, ncols_);
                 return *this;
             }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 98f1ba1..f038a4c 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -1170,6 +1170,7 @@ namespace pigo {
             /** @brief Transpose the COO, swapping x and y */
             COO& transpose() {
                 std::swap(x_, y_);
+                std::swap(nrows_, ncols_);
                 return *this;
             }
 
-- 
2.43.0


From b796c5a12451b78ef8076aead7a4a3f024cea7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/40] fix: set the number of rows and columns of a COO built
 from a CSR

---
 include/pigo/impl/coo.impl.hpp | 8 ++++++++
 release/pigo.hpp               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index c2ab127..80e3be7 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -68,6 +68,14 @@ namespace pigo {
         // First, set our sizes and allocate space
         n_ = csr.n();
         m_ = csr.m();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
+
+        // A symmetrized matrix is square
+        if (detail::if_true_<sym>()) {
+            if (nrows_ < ncols_) nrows_ = ncols_;
+            else ncols_ = nrows_;
+        }
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
diff --git a/release/pigo.hpp b/release/pigo.hpp
index f038a4c..cd298b2 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3726,6 +3726,14 @@ namespace pigo {
         // First, set our sizes and allocate space
         n_ = csr.n();
         m_ = csr.m();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
+
+        // A symmetrized matrix is square
+        if (detail::if_true_<sym>()) {
+            if (nrows_ < ncols_) nrows_ = ncols_;
+            else ncols_ = nrows_;
+        }
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
-- 
2.43.0


From 16a31111cca9b3f2e0f51ef687cd143083c35822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 10/40] fix: use ordinals for the offsets when a COO reads a
 CSR file

---
 include/pigo/impl/coo.impl.hpp | 2 +-
 release/pigo.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 80e3be7..89f253a 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -47,7 +47,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,S,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index cd298b2..7c2bd06 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3705,7 +3705,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,S,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
-- 
2.43.0


From 328d0c02d61bd234b9cc95b832f83f0dd3da46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 11/40] fix: do not duplicate self loops when symmetrizing from
 a CSR to a COO

---
 include/pigo/impl/coo.impl.hpp | 30 +++++++++++++++++++++++-------
 release/pigo.hpp               | 30 +++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 89f253a..1211a43 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -77,20 +77,35 @@ namespace pigo {
             else ncols_ = nrows_;
         }
 
-        if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
-        else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
+        if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
-        allocate_();
-
         auto storage_offsets = csr.offsets();
         auto storage_endpoints = csr.endpoints();
         CO* offsets = (CO*)detail::get_raw_data_(storage_offsets);
         CL* endpoints = (CL*)detail::get_raw_data_(storage_endpoints);
 
+        // When symmetrizing, every entry is duplicated unless it is a self
+        // loop, so find where each row begins
+        std::vector<size_t> sym_offsets;
+        if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+            sym_offsets.resize((size_t)n_+1);
+            #pragma omp parallel for schedule(dynamic, 10240)
+            for (L v = 0; v < n_; ++v) {
+                size_t count = 0;
+                for (size_t cur = offsets[v]; cur < (size_t)offsets[v+1]; ++cur)
+                    count += ((L)endpoints[cur] == v) ? 1 : 2;
+                sym_offsets[(size_t)v+1] = count;
+            }
+            for (size_t v = 0; v < (size_t)n_; ++v)
+                sym_offsets[v+1] += sym_offsets[v];
+            m_ = sym_offsets[n_];
+        }
+
+        allocate_();
+
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
             auto storage_weights = csr.weights();
@@ -104,7 +119,7 @@ namespace pigo {
             size_t coo_cur = offsets[v];
 
             if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-                coo_cur *= 2;
+                coo_cur = sym_offsets[v];
 
             CW* cur_weight = nullptr;
             if (detail::if_true_<wgt>()) {
@@ -117,7 +132,8 @@ namespace pigo {
                     // Only the upper triangle should be saved
                     if (new_x > new_y)
                         std::swap(new_x, new_y);
-                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()
+                        && new_x != new_y) {
                     // We need to duplicate each edge, to point both ways
                     detail::set_value_(x_, coo_cur, new_y);
                     detail::set_value_(y_, coo_cur, new_x);
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 7c2bd06..833e014 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3735,20 +3735,35 @@ namespace pigo {
             else ncols_ = nrows_;
         }
 
-        if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-            m_ *= 2;
-        else if (!detail::if_true_<sym>() && detail::if_true_<ut>())
+        if (!detail::if_true_<sym>() && detail::if_true_<ut>())
             throw NotYetImplemented("Keeping triangle only from CSR not yet implemented");
         if (detail::if_true_<sl>())
             throw NotYetImplemented("Removing self loops from CSR not yet implemented");
 
-        allocate_();
-
         auto storage_offsets = csr.offsets();
         auto storage_endpoints = csr.endpoints();
         CO* offsets = (CO*)detail::get_raw_data_(storage_offsets);
         CL* endpoints = (CL*)detail::get_raw_data_(storage_endpoints);
 
+        // When symmetrizing, every entry is duplicated unless it is a self
+        // loop, so find where each row begins
+        std::vector<size_t> sym_offsets;
+        if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+            sym_offsets.resize((size_t)n_+1);
+            #pragma omp parallel for schedule(dynamic, 10240)
+            for (L v = 0; v < n_; ++v) {
+                size_t count = 0;
+                for (size_t cur = offsets[v]; cur < (size_t)offsets[v+1]; ++cur)
+                    count += ((L)endpoints[cur] == v) ? 1 : 2;
+                sym_offsets[(size_t)v+1] = count;
+            }
+            for (size_t v = 0; v < (size_t)n_; ++v)
+                sym_offsets[v+1] += sym_offsets[v];
+            m_ = sym_offsets[n_];
+        }
+
+        allocate_();
+
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
             auto storage_weights = csr.weights();
@@ -3762,7 +3777,7 @@ namespace pigo {
             size_t coo_cur = offsets[v];
 
             if (detail::if_true_<sym>() && !detail::if_true_<ut>())
-                coo_cur *= 2;
+                coo_cur = sym_offsets[v];
 
             CW* cur_weight = nullptr;
             if (detail::if_true_<wgt>()) {
@@ -3775,7 +3790,8 @@ namespace pigo {
                     // Only the upper triangle should be saved
                     if (new_x > new_y)
                         std::swap(new_x, new_y);
-                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()) {
+                } else if (detail::if_true_<sym>() && !detail::if_true_<ut>()
+                        && new_x != new_y) {
                     // We need to duplicate each edge, to point both ways
                     detail::set_value_(x_, coo_cur, new_y);
                     detail::set_value_(y_, coo_cur, new_x);
-- 
2.43.0


From 1227b5207b4bdd2df073f81a2522554aa3c9e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 12/40] fix: compare the Matrix Market header with the entries
 in the file, not the kept entries

---
 include/pigo/coo.hpp           |  7 +++-
 include/pigo/impl/coo.impl.hpp | 60 ++++++++++++++----------------
 release/pigo.hpp               | 67 +++++++++++++++++-----------------
 3 files changed, 66 insertions(+), 68 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index cb20d99..88e16f7 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -108,8 +108,11 @@ namespace pigo {
              * specific file to load the COO.
              *
              * @param r the FileReader to read with
+             *
+             * @return the number of entries in the file, including any
+             *         that are not kept in the COO
              */
-            void read_el_(FileReader& r);
+            size_t read_el_(FileReader& r);
 
             /** @brief Reads a matrix market file into the COO
              *
@@ -167,7 +170,7 @@ namespace pigo {
              *                what would have been read.
              */
             template <bool count_only>
-            void read_coord_entry_(size_t &coord_pos, FileReader &r,
+            bool read_coord_entry_(size_t &coord_pos, FileReader &r,
                     Label &max_row, Label &max_col);
 
             /** @brief Copies the COO values from the other COO */
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 1211a43..b957122 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -253,28 +253,29 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) return;
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
+                if (if_true_<sl>() && x == y) return true;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 // Removed entries must not store their weight, as the
                 // position may belong to the next entry or thread
@@ -283,7 +284,7 @@ namespace pigo {
                     read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                     r.move_to_eol();
                     r.move_to_next_int();
-                    return;
+                    return true;
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
@@ -305,6 +306,7 @@ namespace pigo {
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
 
@@ -312,22 +314,23 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry without flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
@@ -337,15 +340,16 @@ namespace pigo {
                 ++coord_pos;
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     template<bool count_only>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
+    bool COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
             L& max_row, L& max_col) {
-        detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+        return detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -374,7 +378,7 @@ namespace pigo {
         }
 
         // Now, read out the actual contents
-        read_el_(r);
+        size_t read_nnz = read_el_(r);
 
         // Finally, sanity check the file
         if (nrows >= nrows_)
@@ -390,21 +394,9 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        if ((size_t)nnz != read_nnz) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -412,7 +404,7 @@ namespace pigo {
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
+    size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
         // Get the number of threads
         size_t num_threads = 1;
         #ifdef _OPENMP
@@ -435,8 +427,9 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        size_t num_entries = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : num_entries)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -471,7 +464,8 @@ namespace pigo {
             L max_unused;
             size_t tid_nls = 0;
             while (rs_p1.good()) {
-                read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused);
+                if (read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused))
+                    ++num_entries;
             }
 
             nl_offsets[tid] = tid_nls;
@@ -509,6 +503,8 @@ namespace pigo {
         ncols_ = max_col + 1;
         if (nrows_ > ncols_) n_ = nrows_;
         else n_ = ncols_;
+
+        return num_entries;
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 833e014..4b5b278 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -942,8 +942,11 @@ namespace pigo {
              * specific file to load the COO.
              *
              * @param r the FileReader to read with
+             *
+             * @return the number of entries in the file, including any
+             *         that are not kept in the COO
              */
-            void read_el_(FileReader& r);
+            size_t read_el_(FileReader& r);
 
             /** @brief Reads a matrix market file into the COO
              *
@@ -1001,7 +1004,7 @@ namespace pigo {
              *                what would have been read.
              */
             template <bool count_only>
-            void read_coord_entry_(size_t &coord_pos, FileReader &r,
+            bool read_coord_entry_(size_t &coord_pos, FileReader &r,
                     Label &max_row, Label &max_col);
 
             /** @brief Copies the COO values from the other COO */
@@ -3911,28 +3914,29 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) return;
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) return;
+                if (if_true_<sl>() && x == y) return true;
+                if (!if_true_<sym>() && if_true_<ut>() && x > y) return true;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 // Removed entries must not store their weight, as the
                 // position may belong to the next entry or thread
@@ -3941,7 +3945,7 @@ namespace pigo {
                     read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                     r.move_to_eol();
                     r.move_to_next_int();
-                    return;
+                    return true;
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
@@ -3963,6 +3967,7 @@ namespace pigo {
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
 
@@ -3970,22 +3975,23 @@ namespace pigo {
          * flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,true> {
-            static inline void op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 r.move_to_eol();
                 r.move_to_next_int();
                 ++coord_pos;
+                return true;
             }
         };
 
         /** Setting implementation of reading a coord entry without flags */
         template<class L, class O, class S, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,false,false,false,wgt,W,WS,false> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline bool op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
-                if (!r.good()) return;
+                if (!r.good()) return false;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
@@ -3995,15 +4001,16 @@ namespace pigo {
                 ++coord_pos;
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                return true;
             }
         };
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
     template<bool count_only>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
+    bool COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_coord_entry_(size_t &coord_pos, FileReader &r,
             L& max_row, L& max_col) {
-        detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
+        return detail::read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,count_only>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
@@ -4032,7 +4039,7 @@ namespace pigo {
         }
 
         // Now, read out the actual contents
-        read_el_(r);
+        size_t read_nnz = read_el_(r);
 
         // Finally, sanity check the file
         if (nrows >= nrows_)
@@ -4048,21 +4055,9 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        if ((size_t)nnz != read_nnz) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
@@ -4070,7 +4065,7 @@ namespace pigo {
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-    void COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
+    size_t COO<L,O,S,sym,ut,sl,wgt,W,WS>::read_el_(FileReader& r) {
         // Get the number of threads
         size_t num_threads = 1;
         #ifdef _OPENMP
@@ -4093,8 +4088,9 @@ namespace pigo {
 
         L max_row = 0;
         L max_col = 0;
+        size_t num_entries = 0;
         #pragma omp parallel reduction(max : max_row) \
-                reduction(max : max_col)
+                reduction(max : max_col) reduction(+ : num_entries)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4129,7 +4125,8 @@ namespace pigo {
             L max_unused;
             size_t tid_nls = 0;
             while (rs_p1.good()) {
-                read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused);
+                if (read_coord_entry_<true>(tid_nls, rs_p1, max_unused, max_unused))
+                    ++num_entries;
             }
 
             nl_offsets[tid] = tid_nls;
@@ -4167,6 +4164,8 @@ namespace pigo {
         ncols_ = max_col + 1;
         if (nrows_ > ncols_) n_ = nrows_;
         else n_ = ncols_;
+
+        return num_entries;
     }
 
     template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
-- 
2.43.0


From f454446451e947400fa24a5124c06578d7758cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 13/40] fix: keep rows intact around blank lines and comments
 in GRAPH files

---
 include/pigo.hpp                | 13 ++++++++
 include/pigo/impl/csr.impl.hpp  | 12 ++++----
 include/pigo/impl/pigo.impl.hpp | 28 +++++++----------
 release/pigo.hpp                | 53 +++++++++++++++++++--------------
 4 files changed, 60 insertions(+), 46 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 6a97eb5..bca90da 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -155,6 +155,19 @@ namespace pigo {
              */
             void move_to_eol();
 
+            /** @brief Move to the end of the line if inside of a comment
+             *
+             * @param start a reader at or before this one, at the start
+             *        of a line
+             */
+            void move_out_of_comment(const FileReader& start) {
+                FilePos pos = d;
+                while (pos > start.d && *(pos-1) != '\n') {
+                    --pos;
+                    if (*pos == '%' || *pos == '#') return move_to_eol();
+                }
+            }
+
             /** @brief Move to the next instance of the given character
              *
              * If this is on the starting character, it will move off first,
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index e2c02af..7d23d5e 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -273,8 +273,9 @@ namespace pigo {
         L read_n = r.read_int<L>();
         r.move_to_next_int();
         O read_m = r.read_int<O>();
+        // Move to the first line, which can be empty
         r.move_to_eol();
-        r.move_to_next_int();
+        r.move_to_next_int_or_nl();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -284,7 +285,7 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
@@ -302,11 +303,12 @@ namespace pigo {
             FileReader re = r + tid_end_i;
 
             // Now, move to the appropriate starting point
+            re.move_out_of_comment(r);
             re.move_to_next_int();
             if (tid != 0) {
+                rs.move_out_of_comment(r);
                 rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -403,7 +405,7 @@ namespace pigo {
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
+                    if (rs_p2.peek() != '\n')
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 2b09630..f53732f 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -486,27 +486,19 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_int_or_nl() {
-        bool at_int = false;
-        if (d < end && (*d >= '0' && *d <= '9')) at_int = true;
-        // Move through the current int or newline
-        move_to_non_int();
         if (d < end && *d == '\n') {
-            if (at_int) return;     // We have now reached a newline
-            ++d; // Move through a newline
-        }
-
-        if (*d == '%' || *d == '#') {
+            // Move through the newline and any lines that are only a
+            // comment
+            ++d;
             skip_comments();
-            --d;        // This will end at a newline
-            return;
-        }
+        } else
+            // Move through the current int
+            move_to_non_int();
+
+        // A comment after the integers runs until the newline
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
-            if (*d == '%' || *d == '#') {
-                skip_comments();
-                --d;
-                return;
-            }
+            if (*d == '%' || *d == '#') move_to_eol();
+            else ++d;
         }
     }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 4b5b278..101fccf 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -195,6 +195,19 @@ namespace pigo {
              */
             void move_to_eol();
 
+            /** @brief Move to the end of the line if inside of a comment
+             *
+             * @param start a reader at or before this one, at the start
+             *        of a line
+             */
+            void move_out_of_comment(const FileReader& start) {
+                FilePos pos = d;
+                while (pos > start.d && *(pos-1) != '\n') {
+                    --pos;
+                    if (*pos == '%' || *pos == '#') return move_to_eol();
+                }
+            }
+
             /** @brief Move to the next instance of the given character
              *
              * If this is on the starting character, it will move off first,
@@ -3450,27 +3463,19 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_int_or_nl() {
-        bool at_int = false;
-        if (d < end && (*d >= '0' && *d <= '9')) at_int = true;
-        // Move through the current int or newline
-        move_to_non_int();
         if (d < end && *d == '\n') {
-            if (at_int) return;     // We have now reached a newline
-            ++d; // Move through a newline
-        }
-
-        if (*d == '%' || *d == '#') {
+            // Move through the newline and any lines that are only a
+            // comment
+            ++d;
             skip_comments();
-            --d;        // This will end at a newline
-            return;
-        }
+        } else
+            // Move through the current int
+            move_to_non_int();
+
+        // A comment after the integers runs until the newline
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
-            if (*d == '%' || *d == '#') {
-                skip_comments();
-                --d;
-                return;
-            }
+            if (*d == '%' || *d == '#') move_to_eol();
+            else ++d;
         }
     }
 
@@ -4608,8 +4613,9 @@ namespace pigo {
         L read_n = r.read_int<L>();
         r.move_to_next_int();
         O read_m = r.read_int<O>();
+        // Move to the first line, which can be empty
         r.move_to_eol();
-        r.move_to_next_int();
+        r.move_to_next_int_or_nl();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -4619,7 +4625,7 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        std::vector<char> have_zeros(num_threads, false);
         bool have_zero;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
@@ -4637,11 +4643,12 @@ namespace pigo {
             FileReader re = r + tid_end_i;
 
             // Now, move to the appropriate starting point
+            re.move_out_of_comment(r);
             re.move_to_next_int();
             if (tid != 0) {
+                rs.move_out_of_comment(r);
                 rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -4738,7 +4745,7 @@ namespace pigo {
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
+                    if (rs_p2.peek() != '\n')
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
-- 
2.43.0


From e4894da509e88df4077bce5548ef44505fd7f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 14/40] fix: read the last row of a GRAPH file that does not
 end in a newline

---
 include/pigo/impl/csr.impl.hpp | 14 +++++++++++---
 release/pigo.hpp               | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 7d23d5e..1380c01 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -319,11 +319,13 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+                in_row = !rs_p1.at_nl_or_eol();
+                if (in_row)
                     ++tid_ints;
+                else
+                    ++tid_nls;
                 // Determine if this is a 0
                 if (rs_p1.at_zero() && !my_have_zero)
                     my_have_zero = true;
@@ -333,6 +335,10 @@ namespace pigo {
             if (my_have_zero) {
                 have_zeros[tid] = true;
             }
+            // The last row may not have a newline at the end of the file
+            bool unended_row = in_row && !re.good();
+            if (unended_row)
+                ++tid_nls;
 
             #pragma omp barrier
             #pragma omp single
@@ -409,6 +415,8 @@ namespace pigo {
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
+            if (unended_row && offset_pos < n_)
+                detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
             max_labels[tid] = my_max;
         }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 101fccf..5f82d1d 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4659,11 +4659,13 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+                in_row = !rs_p1.at_nl_or_eol();
+                if (in_row)
                     ++tid_ints;
+                else
+                    ++tid_nls;
                 // Determine if this is a 0
                 if (rs_p1.at_zero() && !my_have_zero)
                     my_have_zero = true;
@@ -4673,6 +4675,10 @@ namespace pigo {
             if (my_have_zero) {
                 have_zeros[tid] = true;
             }
+            // The last row may not have a newline at the end of the file
+            bool unended_row = in_row && !re.good();
+            if (unended_row)
+                ++tid_nls;
 
             #pragma omp barrier
             #pragma omp single
@@ -4749,6 +4755,8 @@ namespace pigo {
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
+            if (unended_row && offset_pos < n_)
+                detail::set_value_(offsets_, ++offset_pos, endpoint_pos);
             max_labels[tid] = my_max;
         }
 
-- 
2.43.0


From 765a1f098e1f60ced1aabe79307940f9c3a80ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 15/40] fix: count the rows of a GRAPH file from its header

---
 include/pigo/impl/csr.impl.hpp | 16 +++++++++++-----
 release/pigo.hpp               | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 1380c01..50ab78b 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -375,7 +375,8 @@ namespace pigo {
                 // Now, allocate the space appropriately
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
+                // Extra lines at the end of the file are not rows
+                nrows_ = (have_zero) ? read_n : read_n+1;
                 allocate_();
                 detail::set_value_(offsets_, 0, 0);
                 if (!have_zero)
@@ -420,10 +421,15 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        if (m_ != 2*read_m && m_ != read_m) {
+            free();
+            throw Error("Mismatch in CSR nonzeros and header");
+        }
+        if (n_ < nrows_) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
+        n_ = read_n;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 5f82d1d..9b5f0db 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4715,7 +4715,8 @@ namespace pigo {
                 // Now, allocate the space appropriately
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
-                nrows_ = n_;
+                // Extra lines at the end of the file are not rows
+                nrows_ = (have_zero) ? read_n : read_n+1;
                 allocate_();
                 detail::set_value_(offsets_, 0, 0);
                 if (!have_zero)
@@ -4760,10 +4761,15 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
-        if (m_ == 2*read_m) {}
-        else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
-        else n_ = read_n;
+        if (m_ != 2*read_m && m_ != read_m) {
+            free();
+            throw Error("Mismatch in CSR nonzeros and header");
+        }
+        if (n_ < nrows_) {
+            free();
+            throw Error("Mismatch in CSR newlines and header");
+        }
+        n_ = read_n;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
-- 
2.43.0


From b458700181faf72c86ac8f45dc9e6b30f4d77a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 16/40] fix: allocate offsets for every row when building a CSR
 from a COO

---
 include/pigo/impl/csr.impl.hpp | 3 +++
 release/pigo.hpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 50ab78b..78fca33 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -116,6 +116,9 @@ namespace pigo {
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
 
+        // There needs to be an offset for every row label
+        if (n_ < nrows_) n_ = nrows_;
+
         // Allocate the offsets and endpoints
         allocate_();
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 9b5f0db..760a888 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4456,6 +4456,9 @@ namespace pigo {
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
 
+        // There needs to be an offset for every row label
+        if (n_ < nrows_) n_ = nrows_;
+
         // Allocate the offsets and endpoints
         allocate_();
 
-- 
2.43.0


From 7b54efbd6b7cfdf971d30b37fc6e90f108b1211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 17/40] fix: keep the last entry of an unweighted tensor file
 without a final newline

---
 include/pigo/impl/tensor.impl.hpp | 15 +++++++--------
 release/pigo.hpp                  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index b5b48c0..cc649f9 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -62,12 +62,10 @@ namespace pigo {
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
-                for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
+                // The reader is already at the first label
+                O idx = (detail::if_true_<wgt>()) ? 0 : 1;
+                for (; idx < order_; ++idx) {
+                    r.move_to_next_int();
                     if (!r.good()) return;
                 }
                 r.move_to_eol();
@@ -81,8 +79,9 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
+                    if (idx > 0) r.move_to_next_int();
                     if (!r.good()) return;
+                    L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
@@ -191,7 +190,7 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 760a888..1499710 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -5220,12 +5220,10 @@ namespace pigo {
         template<class L, class O, class S, class W, class WS, bool wgt>
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
-                for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
+                // The reader is already at the first label
+                O idx = (detail::if_true_<wgt>()) ? 0 : 1;
+                for (; idx < order_; ++idx) {
+                    r.move_to_next_int();
                     if (!r.good()) return;
                 }
                 r.move_to_eol();
@@ -5239,8 +5237,9 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,false> {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L v = r.read_int<L>();
+                    if (idx > 0) r.move_to_next_int();
                     if (!r.good()) return;
+                    L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
@@ -5349,7 +5348,7 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (rs_p2.good() && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
-- 
2.43.0


From 27159dae1cb2ee5bcfb91e9fd623115d6fbc3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 18/40] fix: find the order of tensors with exponents, tabs, or
 carriage returns on the first line

---
 include/pigo/impl/pigo.impl.hpp | 47 +++++++--------------------------
 release/pigo.hpp                | 47 +++++++--------------------------
 2 files changed, 20 insertions(+), 74 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index f53732f..ee3ac0c 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -441,47 +441,20 @@ namespace pigo {
 
     inline
     size_t FileReader::count_spaces_to_eol() {
-        size_t space_ct = 0;
+        // The spaces are those between numbers
+        size_t number_ct = 0;
         // Loop until a newline
         while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (*d == '%' || *d == '#')
                 move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (*d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
-            }
-
-            // Count this as a space
-            ++space_ct;
-
-            // Move passed the space
-            while (*d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (*d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
-                move_to_eol();
-                break;
-            }
+            else if (*d >= '0' && *d <= '9') {
+                ++number_ct;
+                // Read through the number, including any exponent
+                move_to_non_fp();
+            } else
+                ++d;
         }
-        return space_ct;
+        return (number_ct > 0) ? number_ct-1 : 0;
     }
 
     inline
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 1499710..92e5f1c 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3418,47 +3418,20 @@ namespace pigo {
 
     inline
     size_t FileReader::count_spaces_to_eol() {
-        size_t space_ct = 0;
+        // The spaces are those between numbers
+        size_t number_ct = 0;
         // Loop until a newline
         while (d < end && *d != '\n') {
-            // Read up to an integer, stopping once it is within an
-            // integer
-            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
-
-            // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
-                move_to_eol();
-                break;
-            }
-
-            // Read through the integer
-            while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
-
-            if (*d == '\n') break;
-            if (*d == '%' || *d == '#') {
-                move_to_eol();
-                break;
-            }
-
-            // Count this as a space
-            ++space_ct;
-
-            // Move passed the space
-            while (*d == ' ') { ++d; };
-
-            // Check if we just counted whitespace at the end; if so,
-            // un-do the count
-            if (*d == '\n') {
-                --space_ct;
-                break;
-            }
-            if (*d == '%' || *d == '#') {
-                --space_ct;
+            if (*d == '%' || *d == '#')
                 move_to_eol();
-                break;
-            }
+            else if (*d >= '0' && *d <= '9') {
+                ++number_ct;
+                // Read through the number, including any exponent
+                move_to_non_fp();
+            } else
+                ++d;
         }
-        return space_ct;
+        return (number_ct > 0) ? number_ct-1 : 0;
     }
 
     inline
-- 
2.43.0


From 8027512c497ea89451e5dcdac4cc699c6e704541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 19/40] fix: do not overflow the ordinal type when indexing
 tensor coordinates

---
 include/pigo/impl/tensor.impl.hpp |  8 ++++----
 include/pigo/tensor.hpp           |  2 +-
 release/pigo.hpp                  | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index cc649f9..9a4bee5 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -49,7 +49,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -321,7 +321,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -358,7 +358,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -403,7 +403,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..55d7be8 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -106,7 +106,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 92e5f1c..954d718 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -2218,7 +2218,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
@@ -5180,7 +5180,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -5452,7 +5452,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -5489,7 +5489,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -5534,7 +5534,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-- 
2.43.0


From 53c92adcb464c65e5600c4fba62397e6f61296b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 20/40] fix: find the offsets of characters at the start and
 not beyond the end of a reader

---
 include/pigo/impl/pigo.impl.hpp | 28 +++++-----------------------
 release/pigo.hpp                | 28 +++++-----------------------
 2 files changed, 10 insertions(+), 46 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index ee3ac0c..7dd2437 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -525,19 +525,10 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
-
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+            for (; rs.d < re.d; ++rs.d) {
+                if (*rs.d == c)
                     ++tid_c;
             }
 
@@ -578,22 +569,13 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
-
             // Now, for pass 2, set the offsets for each character
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
-                    detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
+            for (; rs.d < re.d; ++rs.d) {
+                if (*rs.d == c) {
+                    detail::set_value_(t_c, tid_c, rs.d-r.d);
                     ++tid_c;
                 }
             }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 954d718..29d3daf 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3502,19 +3502,10 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
-
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c)
+            for (; rs.d < re.d; ++rs.d) {
+                if (*rs.d == c)
                     ++tid_c;
             }
 
@@ -3555,22 +3546,13 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
-            rs.smaller_end(re);
-
-            FileReader rs_p1 = rs;
-
             // Now, for pass 2, set the offsets for each character
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
-                if (*rs_p1.d == c) {
-                    detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
+            for (; rs.d < re.d; ++rs.d) {
+                if (*rs.d == c) {
+                    detail::set_value_(t_c, tid_c, rs.d-r.d);
                     ++tid_c;
                 }
             }
-- 
2.43.0


From 1c8f08a92a9604cd5a14fe8ca3b5139fc5488d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 21/40] fix: let errors creating the output file of an ASCII
 write reach the caller

---
 include/pigo/impl/coo.impl.hpp    | 31 +++++++++-------
 include/pigo/impl/tensor.impl.hpp | 31 +++++++++-------
 release/pigo.hpp                  | 62 +++++++++++++++++--------------
 3 files changed, 68 insertions(+), 56 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index b957122..dcb5f50 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -618,8 +618,7 @@ namespace pigo {
         #endif
 
         std::vector<size_t> pos_offsets(num_threads+1);
-        std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        #pragma omp parallel shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -651,22 +650,26 @@ namespace pigo {
             }
 
             pos_offsets[tid+1] = my_size;
-            #pragma omp barrier
+        }
 
-            #pragma omp single
-            {
-                // Compute the total size and perform a prefix sum
-                pos_offsets[0] = 0;
-                for (size_t thread = 1; thread <= num_threads; ++thread)
-                    pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
+        // Compute the total size and perform a prefix sum
+        pos_offsets[0] = 0;
+        for (size_t thread = 1; thread <= num_threads; ++thread)
+            pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
-                // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
-            }
+        // Allocate the file, outside of the parallel regions so that any
+        // error reaches the caller
+        WFile f {fn, pos_offsets[num_threads]};
 
-            #pragma omp barrier
+        #pragma omp parallel shared(f) shared(pos_offsets)
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = f.fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 9a4bee5..b602fa0 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -308,8 +308,7 @@ namespace pigo {
         #endif
 
         std::vector<size_t> pos_offsets(num_threads+1);
-        std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        #pragma omp parallel shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -337,22 +336,26 @@ namespace pigo {
             }
 
             pos_offsets[tid+1] = my_size;
-            #pragma omp barrier
+        }
 
-            #pragma omp single
-            {
-                // Compute the total size and perform a prefix sum
-                pos_offsets[0] = 0;
-                for (size_t thread = 1; thread <= num_threads; ++thread)
-                    pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
+        // Compute the total size and perform a prefix sum
+        pos_offsets[0] = 0;
+        for (size_t thread = 1; thread <= num_threads; ++thread)
+            pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
-                // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
-            }
+        // Allocate the file, outside of the parallel regions so that any
+        // error reaches the caller
+        WFile f {fn, pos_offsets[num_threads]};
 
-            #pragma omp barrier
+        #pragma omp parallel shared(f) shared(pos_offsets)
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = f.fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 29d3daf..4dad839 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4239,8 +4239,7 @@ namespace pigo {
         #endif
 
         std::vector<size_t> pos_offsets(num_threads+1);
-        std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        #pragma omp parallel shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -4272,22 +4271,26 @@ namespace pigo {
             }
 
             pos_offsets[tid+1] = my_size;
-            #pragma omp barrier
+        }
 
-            #pragma omp single
-            {
-                // Compute the total size and perform a prefix sum
-                pos_offsets[0] = 0;
-                for (size_t thread = 1; thread <= num_threads; ++thread)
-                    pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
+        // Compute the total size and perform a prefix sum
+        pos_offsets[0] = 0;
+        for (size_t thread = 1; thread <= num_threads; ++thread)
+            pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
-                // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
-            }
+        // Allocate the file, outside of the parallel regions so that any
+        // error reaches the caller
+        WFile f {fn, pos_offsets[num_threads]};
 
-            #pragma omp barrier
+        #pragma omp parallel shared(f) shared(pos_offsets)
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = f.fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
@@ -5421,8 +5424,7 @@ namespace pigo {
         #endif
 
         std::vector<size_t> pos_offsets(num_threads+1);
-        std::shared_ptr<File> f;
-        #pragma omp parallel shared(f) shared(pos_offsets)
+        #pragma omp parallel shared(pos_offsets)
         {
             #ifdef _OPENMP
             size_t tid = omp_get_thread_num();
@@ -5450,22 +5452,26 @@ namespace pigo {
             }
 
             pos_offsets[tid+1] = my_size;
-            #pragma omp barrier
+        }
 
-            #pragma omp single
-            {
-                // Compute the total size and perform a prefix sum
-                pos_offsets[0] = 0;
-                for (size_t thread = 1; thread <= num_threads; ++thread)
-                    pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
+        // Compute the total size and perform a prefix sum
+        pos_offsets[0] = 0;
+        for (size_t thread = 1; thread <= num_threads; ++thread)
+            pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
-                // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
-            }
+        // Allocate the file, outside of the parallel regions so that any
+        // error reaches the caller
+        WFile f {fn, pos_offsets[num_threads]};
 
-            #pragma omp barrier
+        #pragma omp parallel shared(f) shared(pos_offsets)
+        {
+            #ifdef _OPENMP
+            size_t tid = omp_get_thread_num();
+            #else
+            size_t tid = 0;
+            #endif
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = f.fp()+pos_offsets[tid];
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-- 
2.43.0


From 182fd88c9bfd4358654a4969005ae465ad82c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 22/40] fix: write the smallest value of signed integers to
 ASCII

---
 include/pigo/impl/pigo.impl.hpp | 18 ++++++++++--------
 release/pigo.hpp                | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 7dd2437..50bbadc 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -233,9 +233,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            // The smallest value only has an unsigned positive
+            typename std::make_unsigned<T>::type res = obj;
+            if (obj < 0) return 0-res;
+            return res;
         }
     }
 
@@ -293,15 +295,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 4dad839..8a3ef17 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3210,9 +3210,11 @@ namespace pigo {
         }
         template<typename T, typename std::enable_if<std::is_signed<T>::value, bool>::type = true>
         inline
-        T get_positive(T obj) {
-            if (obj < 0) return -obj;
-            return obj;
+        typename std::make_unsigned<T>::type get_positive(T obj) {
+            // The smallest value only has an unsigned positive
+            typename std::make_unsigned<T>::type res = obj;
+            if (obj < 0) return 0-res;
+            return res;
         }
     }
 
@@ -3270,15 +3272,15 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
+        auto val = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(val);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
-            obj /= 10;
-        } while (obj != 0);
+            *((char*)fp+pos--) = (val%10)+'0';
+            val /= 10;
+        } while (val != 0);
         fp += num_size;
     }
 
-- 
2.43.0


From 88a8a6420e6d6564331342067ceb68d10de3909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 23/40] fix: do not write a byte beyond a floating point value
 in write_ascii

---
 include/pigo/impl/stb.impl.hpp | 2 --
 release/pigo.hpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/pigo/impl/stb.impl.hpp b/include/pigo/impl/stb.impl.hpp
index 81c3425..f713693 100644
--- a/include/pigo/impl/stb.impl.hpp
+++ b/include/pigo/impl/stb.impl.hpp
@@ -306,8 +306,6 @@ namespace pigo {
           }
        }
 
-        *bf = 0;
-
        return (int)(bf - buf);
     }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 8a3ef17..e137d25 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -2638,8 +2638,6 @@ namespace pigo {
           }
        }
 
-        *bf = 0;
-
        return (int)(bf - buf);
     }
 
-- 
2.43.0


From 3e9e2e98907866a22fbe17cd5788a242a4ce1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 24/40] fix: release the file and mapping when opening a File
 fails

---
 include/pigo/impl/pigo.impl.hpp | 44 ++++++++++++++++++++++++++-------
 release/pigo.hpp                | 44 ++++++++++++++++++++++++++-------
 2 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 50bbadc..bd5c758 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -37,8 +37,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -53,24 +59,44 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
diff --git a/release/pigo.hpp b/release/pigo.hpp
index e137d25..530d4f1 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3012,8 +3012,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -3028,24 +3034,44 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
-- 
2.43.0


From 384fce56a4467d1bc8acb731b9edfbbbf65ad83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 25/40] fix: make freeing an empty or already freed CSR safe

---
 include/pigo.hpp     | 1 +
 include/pigo/csr.hpp | 3 ++-
 release/pigo.hpp     | 4 +++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index bca90da..db4eede 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -579,6 +579,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index c5e4412..79e771c 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -126,7 +126,8 @@ namespace pigo {
                     coo);
         public:
             /** @brief Initialize an empty CSR */
-            CSR() : n_(0), m_(0), nrows_(0), ncols_(0) { }
+            CSR() : endpoints_(), offsets_(), weights_(), n_(0), m_(0),
+                nrows_(0), ncols_(0) { }
 
             /** @brief Allocate a CSR for the given size */
             CSR(Label n, Ordinal m, Label nrows, Label ncols) :
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 530d4f1..0cb35ae 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -619,6 +619,7 @@ namespace pigo {
         struct free_impl_<true, T, true, false, false> {
             static void op_(T& it) {
                 free(it);
+                it = nullptr;
             }
         };
 
@@ -1357,7 +1358,8 @@ namespace pigo {
                     coo);
         public:
             /** @brief Initialize an empty CSR */
-            CSR() : n_(0), m_(0), nrows_(0), ncols_(0) { }
+            CSR() : endpoints_(), offsets_(), weights_(), n_(0), m_(0),
+                nrows_(0), ncols_(0) { }
 
             /** @brief Allocate a CSR for the given size */
             CSR(Label n, Ordinal m, Label nrows, Label ncols) :
-- 
2.43.0


From 0c3c3b5517ee5536ad4ee3275fae01bb6fc735ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 26/40] fix: keep vector weights alive while converting a CSR
 to a COO

---
 include/pigo/impl/coo.impl.hpp | 2 +-
 release/pigo.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index dcb5f50..6c6787d 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -108,7 +108,7 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 0cb35ae..5b5bd65 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3757,7 +3757,7 @@ namespace pigo {
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
-- 
2.43.0


From 56b1aa612b8be61909b9092e88dd63c4a81acb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 27/40] fix: load binary tensors that have an order and no
 entries

---
 include/pigo/impl/tensor.impl.hpp | 2 +-
 release/pigo.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index b602fa0..1e57165 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -268,7 +268,7 @@ namespace pigo {
         m_ = f.read<O>();
 
         // Ensure the file holds all of the entries
-        f.check_remaining(order_, sizeof(L));
+        if (m_ > 0) f.check_remaining(order_, sizeof(L));
         f.check_remaining(m_, sizeof(L)*order_+detail::weight_size_<wgt, W, O>(1));
 
         // Allocate space
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 5b5bd65..3c6015e 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -5412,7 +5412,7 @@ namespace pigo {
         m_ = f.read<O>();
 
         // Ensure the file holds all of the entries
-        f.check_remaining(order_, sizeof(L));
+        if (m_ > 0) f.check_remaining(order_, sizeof(L));
         f.check_remaining(m_, sizeof(L)*order_+detail::weight_size_<wgt, W, O>(1));
 
         // Allocate space
-- 
2.43.0


From 310f648312ef48e63224e58ed10897f79273fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 28/40] fix: require binary CSRs inside of a binary DiGraph

---
 include/pigo/impl/graph.impl.hpp | 4 ++--
 release/pigo.hpp                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 48355d8..1787990 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -38,7 +38,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -47,7 +47,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 3c6015e..f5779e9 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -5102,7 +5102,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -5111,7 +5111,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
-- 
2.43.0


From c49f5135911576613ce17a1199663d9c79d46a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 29/40] fix: refuse a negative vertex count in a binary CSR

---
 include/pigo/impl/csr.impl.hpp | 2 +-
 release/pigo.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 78fca33..8b7f8d4 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -527,7 +527,7 @@ namespace pigo {
         ncols_ = f.read<L>();
 
         // Ensure the file holds all of the offsets and endpoints
-        f.check_remaining((size_t)n_+1, sizeof(O));
+        f.check_remaining(n_, sizeof(O));
         f.check_remaining(m_, sizeof(L)+detail::weight_size_<wgt, W, O>(1));
         f.check_remaining(((size_t)n_+1)*sizeof(O)+m_*(sizeof(L)
                     +detail::weight_size_<wgt, W, O>(1)));
diff --git a/release/pigo.hpp b/release/pigo.hpp
index f5779e9..09f7317 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4853,7 +4853,7 @@ namespace pigo {
         ncols_ = f.read<L>();
 
         // Ensure the file holds all of the offsets and endpoints
-        f.check_remaining((size_t)n_+1, sizeof(O));
+        f.check_remaining(n_, sizeof(O));
         f.check_remaining(m_, sizeof(L)+detail::weight_size_<wgt, W, O>(1));
         f.check_remaining(((size_t)n_+1)*sizeof(O)+m_*(sizeof(L)
                     +detail::weight_size_<wgt, W, O>(1)));
-- 
2.43.0


From a0baad59c1822cda649dbcf0a06eb4111c7a1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 30/40] fix: do not read a missing weight from the next line

---
 include/pigo/impl/coo.impl.hpp    | 31 +++++++++++++++++++------
 include/pigo/impl/tensor.impl.hpp |  7 ++----
 release/pigo.hpp                  | 38 +++++++++++++++++++++----------
 3 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 6c6787d..ab5772e 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -247,18 +247,38 @@ namespace pigo {
             >::op_(coord_pos, ws, r);
         }
 
+        /** @brief Read the weight value from the rest of the current line
+         *
+         * The FileReader is moved to the end of the line. A weight that is
+         * missing or incomplete is never read from the next line.
+         *
+         * @tparam wgt if true, will read a weight
+         * @tparam W the weight type
+         * @tparam WS the weight storage type
+         * @param coord_pos the current coordinate to insert into
+         * @param ws the weight storage to use
+         * @param r the FileReader that is being read from
+         */
+        template <bool wgt, class W, class WS>
+        inline
+        void read_wgt_to_eol_(size_t& coord_pos, WS& ws, FileReader& r) {
+            FileReader line = r;
+            r.move_to_eol();
+            line.smaller_end(r);
+            read_wgt_<wgt, W, WS, false>(coord_pos, ws, line);
+        }
+
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS, bool count_only>
         struct read_coord_entry_i_;
 
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) return true;
@@ -281,13 +301,11 @@ namespace pigo {
                 // position may belong to the next entry or thread
                 if ((if_true_<sl>() && x == y) ||
                         (!if_true_<sym>() && if_true_<ut>() && x > y)) {
-                    read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                     r.move_to_eol();
                     r.move_to_next_int();
                     return true;
                 }
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
@@ -332,8 +350,7 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 1e57165..0a117e0 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -63,8 +63,7 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 // The reader is already at the first label
-                O idx = (detail::if_true_<wgt>()) ? 0 : 1;
-                for (; idx < order_; ++idx) {
+                for (O idx = 1; idx < order_; ++idx) {
                     r.move_to_next_int();
                     if (!r.good()) return;
                 }
@@ -84,9 +83,7 @@ namespace pigo {
                     L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 ++coord_pos;
             }
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 09f7317..c440866 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3896,18 +3896,38 @@ namespace pigo {
             >::op_(coord_pos, ws, r);
         }
 
+        /** @brief Read the weight value from the rest of the current line
+         *
+         * The FileReader is moved to the end of the line. A weight that is
+         * missing or incomplete is never read from the next line.
+         *
+         * @tparam wgt if true, will read a weight
+         * @tparam W the weight type
+         * @tparam WS the weight storage type
+         * @param coord_pos the current coordinate to insert into
+         * @param ws the weight storage to use
+         * @param r the FileReader that is being read from
+         */
+        template <bool wgt, class W, class WS>
+        inline
+        void read_wgt_to_eol_(size_t& coord_pos, WS& ws, FileReader& r) {
+            FileReader line = r;
+            r.move_to_eol();
+            line.smaller_end(r);
+            read_wgt_<wgt, W, WS, false>(coord_pos, ws, line);
+        }
+
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS, bool count_only>
         struct read_coord_entry_i_;
 
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline bool op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
+            static inline bool op_(S&, S&, WS&, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) return true;
@@ -3930,13 +3950,11 @@ namespace pigo {
                 // position may belong to the next entry or thread
                 if ((if_true_<sl>() && x == y) ||
                         (!if_true_<sym>() && if_true_<ut>() && x > y)) {
-                    read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                     r.move_to_eol();
                     r.move_to_next_int();
                     return true;
                 }
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
@@ -3981,8 +3999,7 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return false;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
@@ -5207,8 +5224,7 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 // The reader is already at the first label
-                O idx = (detail::if_true_<wgt>()) ? 0 : 1;
-                for (; idx < order_; ++idx) {
+                for (O idx = 1; idx < order_; ++idx) {
                     r.move_to_next_int();
                     if (!r.good()) return;
                 }
@@ -5228,9 +5244,7 @@ namespace pigo {
                     L v = r.read_int<L>();
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-
-                r.move_to_eol();
+                read_wgt_to_eol_<wgt, W, WS>(coord_pos, w_, r);
                 r.move_to_next_int();
                 ++coord_pos;
             }
-- 
2.43.0


From d9819dbb482fc55453b5e52b855776250d5d256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 31/40] fix: refuse GRAPH files with endpoints after the last
 row of the header

---
 include/pigo/impl/csr.impl.hpp | 5 +++++
 release/pigo.hpp               | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 8b7f8d4..288f4b9 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -432,6 +432,11 @@ namespace pigo {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
+        // Only empty lines can follow the last row
+        if ((size_t)detail::get_value_<OS,O>(offsets_, nrows_) != (size_t)m_) {
+            free();
+            throw Error("Mismatch in CSR rows and header");
+        }
         n_ = read_n;
 
         L col_max = max_labels[0];
diff --git a/release/pigo.hpp b/release/pigo.hpp
index c440866..67a4c67 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4775,6 +4775,11 @@ namespace pigo {
             free();
             throw Error("Mismatch in CSR newlines and header");
         }
+        // Only empty lines can follow the last row
+        if ((size_t)detail::get_value_<OS,O>(offsets_, nrows_) != (size_t)m_) {
+            free();
+            throw Error("Mismatch in CSR rows and header");
+        }
         n_ = read_n;
 
         L col_max = max_labels[0];
-- 
2.43.0


From 47c3b08d5456c636a71ea70a8525f2480b617d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 32/40] fix: release the arrays of COOs and Tensors without
 entries

---
 include/pigo/coo.hpp    | 12 +++++-------
 include/pigo/tensor.hpp | 12 +++++-------
 release/pigo.hpp        | 24 ++++++++++--------------
 3 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 88e16f7..b9fd225 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -230,7 +230,7 @@ namespace pigo {
             COO(CSR<CL, CO, LabelStorage, OrdinalStorage, weighted, CW, CWS>& csr);
 
             /** @brief Initialize an empty COO */
-            COO() : n_(0), nrows_(0), ncols_(0), m_(0) { }
+            COO() : x_(), y_(), w_(), n_(0), nrows_(0), ncols_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             COO(Label n, Label nrows, Label ncols, Ordinal m) :
@@ -306,12 +306,10 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 55d7be8..4d52929 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -148,7 +148,7 @@ namespace pigo {
             Tensor(File& f, FileType ft);
 
             /** @brief Initialize an empty Tensor */
-            Tensor() : order_(0), m_(0) { }
+            Tensor() : c_(), w_(), order_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             Tensor(Ordinal order, Ordinal m) :
@@ -191,12 +191,10 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    order_ = 0;
-                    m_ = 0;
-                }
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                order_ = 0;
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new Tensor */
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 67a4c67..cf58c65 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -1078,7 +1078,7 @@ namespace pigo {
             COO(CSR<CL, CO, LabelStorage, OrdinalStorage, weighted, CW, CWS>& csr);
 
             /** @brief Initialize an empty COO */
-            COO() : n_(0), nrows_(0), ncols_(0), m_(0) { }
+            COO() : x_(), y_(), w_(), n_(0), nrows_(0), ncols_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             COO(Label n, Label nrows, Label ncols, Ordinal m) :
@@ -1154,12 +1154,10 @@ namespace pigo {
              * cleanup directly and then this can be used.
              */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(x_);
-                    detail::free_mem_(y_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    m_ = 0;
-                }
+                detail::free_mem_(x_);
+                detail::free_mem_(y_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new COO */
@@ -2262,7 +2260,7 @@ namespace pigo {
             Tensor(File& f, FileType ft);
 
             /** @brief Initialize an empty Tensor */
-            Tensor() : order_(0), m_(0) { }
+            Tensor() : c_(), w_(), order_(0), m_(0) { }
 
             /** @brief Provide space for copying in existing, out-of-band data */
             Tensor(Ordinal order, Ordinal m) :
@@ -2305,12 +2303,10 @@ namespace pigo {
 
             /** @brief Free consumed memory */
             void free() {
-                if (m_ > 0) {
-                    detail::free_mem_(c_);
-                    detail::free_mem_<WeightStorage, weighted>(w_);
-                    order_ = 0;
-                    m_ = 0;
-                }
+                detail::free_mem_(c_);
+                detail::free_mem_<WeightStorage, weighted>(w_);
+                order_ = 0;
+                m_ = 0;
             }
 
             /** @brief The copy constructor for creating a new Tensor */
-- 
2.43.0


From 01444559e0698af020e4b47d9f4d7347c7831e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 33/40] fix: release the CSR when a COO cannot be built from it

---
 include/pigo/impl/coo.impl.hpp | 7 ++++++-
 release/pigo.hpp               | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index ab5772e..d8b62cb 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -48,7 +48,12 @@ namespace pigo {
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
             CSR<L,O,S,O*,wgt,W,WS> csr {f, ft_used};
-            convert_csr_(csr);
+            try {
+                convert_csr_(csr);
+            } catch (...) {
+                csr.free();
+                throw;
+            }
             csr.free();
         } else {
             // We need to first build a CSR, then move back to a COO
diff --git a/release/pigo.hpp b/release/pigo.hpp
index cf58c65..dfab5e7 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -3693,7 +3693,12 @@ namespace pigo {
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
             CSR<L,O,S,O*,wgt,W,WS> csr {f, ft_used};
-            convert_csr_(csr);
+            try {
+                convert_csr_(csr);
+            } catch (...) {
+                csr.free();
+                throw;
+            }
             csr.free();
         } else {
             // We need to first build a CSR, then move back to a COO
-- 
2.43.0


From 873b3a7581150f42e03a473d4189faef8da8adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 34/40] fix: release the in-edges when the out-edges of a
 DiGraph cannot be read

---
 include/pigo/impl/graph.impl.hpp | 23 ++++++++++++++---------
 release/pigo.hpp                 | 23 ++++++++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 1787990..c3728f0 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -39,15 +39,20 @@ namespace pigo {
                         Weight,
                         WeightStorage
                     > { f, PIGO_CSR_BIN };
-            out_ = BaseGraph<
-                        vertex_t,
-                        edge_ctr_t,
-                        edge_storage,
-                        edge_ctr_storage,
-                        weighted,
-                        Weight,
-                        WeightStorage
-                    > { f, PIGO_CSR_BIN };
+            try {
+                out_ = BaseGraph<
+                            vertex_t,
+                            edge_ctr_t,
+                            edge_storage,
+                            edge_ctr_storage,
+                            weighted,
+                            Weight,
+                            WeightStorage
+                        > { f, PIGO_CSR_BIN };
+            } catch (...) {
+                in_.free();
+                throw;
+            }
         } else {
             // Build a COO, then load ourselves from it
             COO<
diff --git a/release/pigo.hpp b/release/pigo.hpp
index dfab5e7..fd05f85 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -5126,15 +5126,20 @@ namespace pigo {
                         Weight,
                         WeightStorage
                     > { f, PIGO_CSR_BIN };
-            out_ = BaseGraph<
-                        vertex_t,
-                        edge_ctr_t,
-                        edge_storage,
-                        edge_ctr_storage,
-                        weighted,
-                        Weight,
-                        WeightStorage
-                    > { f, PIGO_CSR_BIN };
+            try {
+                out_ = BaseGraph<
+                            vertex_t,
+                            edge_ctr_t,
+                            edge_storage,
+                            edge_ctr_storage,
+                            weighted,
+                            Weight,
+                            WeightStorage
+                        > { f, PIGO_CSR_BIN };
+            } catch (...) {
+                in_.free();
+                throw;
+            }
         } else {
             // Build a COO, then load ourselves from it
             COO<
-- 
2.43.0


From 13db1de9190fe0fa8b46f3debcac75110d1987a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 35/40] fix: count the newlines of entries without labels when
 writing a Tensor

---
 include/pigo/impl/tensor.impl.hpp | 8 ++++++--
 release/pigo.hpp                  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 0a117e0..6cedfdf 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -319,8 +319,9 @@ namespace pigo {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
-                    // Account for the separating space or newline
-                    my_size += 1;
+                    // Account for the separating space
+                    if (idx < order_-1)
+                        my_size += 1;
                 }
 
                 if (detail::if_true_<wgt>()) {
@@ -330,6 +331,9 @@ namespace pigo {
                     auto w = detail::get_value_<WS, W>(w_, e);
                     my_size += write_size(w);
                 }
+
+                // Account for the newline
+                my_size += 1;
             }
 
             pos_offsets[tid+1] = my_size;
diff --git a/release/pigo.hpp b/release/pigo.hpp
index fd05f85..be8f8ec 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -5491,8 +5491,9 @@ namespace pigo {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
-                    // Account for the separating space or newline
-                    my_size += 1;
+                    // Account for the separating space
+                    if (idx < order_-1)
+                        my_size += 1;
                 }
 
                 if (detail::if_true_<wgt>()) {
@@ -5502,6 +5503,9 @@ namespace pigo {
                     auto w = detail::get_value_<WS, W>(w_, e);
                     my_size += write_size(w);
                 }
+
+                // Account for the newline
+                my_size += 1;
             }
 
             pos_offsets[tid+1] = my_size;
-- 
2.43.0


From 03fd19d7c395c3044bdb15f79946f263b07d679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 36/40] fix: count the vertices, rows and columns of a DiGraph
 or Matrix in labels

nrows(), ncols() and DiGraph::n() returned the number of rows as the ordinal
type, which only has to hold the number of edges.
---
 include/pigo/graph.hpp  |  6 +++---
 include/pigo/matrix.hpp |  4 ++--
 release/pigo.hpp        | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index afc9be3..8131862 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -296,13 +296,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 3a3d057..674915b 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -202,10 +202,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
diff --git a/release/pigo.hpp b/release/pigo.hpp
index be8f8ec..5f389c7 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -1770,10 +1770,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
@@ -2083,13 +2083,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
-- 
2.43.0


From e447dbacf033c0cb639165a5197459a536757a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 37/40] fix: read weights with more fraction digits than their
 type can hold

The digits of a fraction were accumulated in the weight type before they
were scaled, so a float weight such as one printed with 40 decimals was
read as infinity.
---
 include/pigo/impl/pigo.impl.hpp | 20 +++++++++++++-------
 release/pigo.hpp                | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index bd5c758..f05533a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -5,6 +5,7 @@
  */
 
 #include <cmath>
+#include <limits>
 #include <stdlib.h>
 #include <sys/mman.h>
 #include <sys/types.h>
@@ -367,7 +368,10 @@ namespace pigo {
     template<typename T>
     inline
     T FileReader::read_fp() {
-        T res = 0.0;
+        // The digits alone can be larger than the value, so use a type that
+        // is wide enough to hold those of smaller types
+        typedef typename std::common_type<T, double>::type wide_t;
+        wide_t res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
@@ -382,18 +386,20 @@ namespace pigo {
         // (+-)AAA.BBB(eE)(+-)ZZ.YY
         // Read the 'A' part
         while (d < end && (*d >= '0' && *d <= '9')) {
-            res = res*10. + (T)(*d-'0');
+            res = res*10. + (*d-'0');
             ++d;
         }
         if (d < end && *d == '.') {
             ++d;
-            T fraction = 0.;
+            wide_t fraction = 0.;
             size_t fraction_count = 0;
-            // Read the 'B' part
+            // Read the 'B' part, up to where its digits would be too large
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                if (fraction_count < (size_t)std::numeric_limits<double>::max_exponent10) {
+                    fraction = fraction*10. + (*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
@@ -404,7 +410,7 @@ namespace pigo {
         }
 
         if (!positive) res *= -1;
-        return res;
+        return (T)res;
     }
 
     inline
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 5f389c7..2870c22 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -42,6 +42,7 @@
 #include <cmath>
 #include <cstring>
 #include <fcntl.h>
+#include <limits>
 #include <memory>
 #include <omp.h>
 #include <stdexcept>
@@ -3340,7 +3341,10 @@ namespace pigo {
     template<typename T>
     inline
     T FileReader::read_fp() {
-        T res = 0.0;
+        // The digits alone can be larger than the value, so use a type that
+        // is wide enough to hold those of smaller types
+        typedef typename std::common_type<T, double>::type wide_t;
+        wide_t res = 0.0;
         while (d < end && !((*d >= '0' && *d <= '9') || *d == 'e' ||
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
@@ -3355,18 +3359,20 @@ namespace pigo {
         // (+-)AAA.BBB(eE)(+-)ZZ.YY
         // Read the 'A' part
         while (d < end && (*d >= '0' && *d <= '9')) {
-            res = res*10. + (T)(*d-'0');
+            res = res*10. + (*d-'0');
             ++d;
         }
         if (d < end && *d == '.') {
             ++d;
-            T fraction = 0.;
+            wide_t fraction = 0.;
             size_t fraction_count = 0;
-            // Read the 'B' part
+            // Read the 'B' part, up to where its digits would be too large
             while (d < end && (*d >= '0' && *d <= '9')) {
-                fraction = fraction*10. + (T)(*d-'0');
+                if (fraction_count < (size_t)std::numeric_limits<double>::max_exponent10) {
+                    fraction = fraction*10. + (*d-'0');
+                    ++fraction_count;
+                }
                 ++d;
-                ++fraction_count;
             }
             res += fraction / std::pow(10., fraction_count);
         }
@@ -3377,7 +3383,7 @@ namespace pigo {
         }
 
         if (!positive) res *= -1;
-        return res;
+        return (T)res;
     }
 
     inline
-- 
2.43.0


From 838478e0d8e33b44225ac74b512630d55328763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 38/40] fix: parallel loops over labels or ordinals of 8 bits
 with many threads

The iterations of a static loop are divided in the type of its counter,
which cannot hold 256 (or 128) threads: a CSR made from a COO divided by
zero or wrote beyond its degrees. The counters are now size_t.
---
 include/pigo/coo.hpp              |  4 ++--
 include/pigo/impl/coo.impl.hpp    |  4 ++--
 include/pigo/impl/csr.impl.hpp    |  8 ++++----
 include/pigo/impl/tensor.impl.hpp |  6 +++---
 include/pigo/tensor.hpp           |  2 +-
 release/pigo.hpp                  | 24 ++++++++++++------------
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index b9fd225..fc15076 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -176,7 +176,7 @@ namespace pigo {
             /** @brief Copies the COO values from the other COO */
             void copy_(const COO& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                     Label x_val = detail::get_value_<
                                 Storage,
                                 Label
@@ -190,7 +190,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index d8b62cb..d413f25 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -650,7 +650,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 my_size += write_size(x);
 
@@ -695,7 +695,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 288f4b9..1598fc4 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -164,7 +164,7 @@ namespace pigo {
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (size_t v = 0; v < (size_t)n_; ++v)
                 all_degs[v] = 0;
 
             auto coo_x = coo.x();
@@ -172,7 +172,7 @@ namespace pigo {
             auto coo_w = coo.w();
 
             #pragma omp for
-            for (O x_id = 0; x_id < m_; ++x_id) {
+            for (size_t x_id = 0; x_id < (size_t)m_; ++x_id) {
                 size_t deg_inc = detail::get_value_<COOStorage, L>(coo_x, x_id);
                 #pragma omp atomic
                 ++all_degs[deg_inc];
@@ -232,7 +232,7 @@ namespace pigo {
 
             // Finally, copy over the actual endpoints
             #pragma omp for
-            for (O coo_pos = 0; coo_pos < m_; ++coo_pos) {
+            for (size_t coo_pos = 0; coo_pos < (size_t)m_; ++coo_pos) {
                 L src = detail::get_value_<COOStorage, L>(coo_x, coo_pos);
                 L dst = detail::get_value_<COOStorage, L>(coo_y, coo_pos);
 
@@ -244,7 +244,7 @@ namespace pigo {
                 }
                 O this_offset = detail::get_value_<OS, O>(offsets_, src+1) - this_offset_pos;
                 detail::set_value_(endpoints_, this_offset, dst);
-                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, this_offset, coo_w, coo_pos);
+                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, this_offset, coo_w, (O)coo_pos);
             }
 
         }
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 6cedfdf..c8b02f7 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -315,7 +315,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
@@ -360,7 +360,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
@@ -405,7 +405,7 @@ namespace pigo {
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 4d52929..fba7df1 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -115,7 +115,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 2870c22..b6fa647 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -1025,7 +1025,7 @@ namespace pigo {
             /** @brief Copies the COO values from the other COO */
             void copy_(const COO& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                     Label x_val = detail::get_value_<
                                 Storage,
                                 Label
@@ -1039,7 +1039,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
@@ -2228,7 +2228,7 @@ namespace pigo {
                 }
                 if (detail::if_true_<weighted>()) {
                     #pragma omp parallel for
-                    for (Ordinal pos = 0; pos < m_; ++pos) {
+                    for (size_t pos = 0; pos < (size_t)m_; ++pos) {
                         Weight w_val = detail::get_value_<
                                     WeightStorage,
                                     Weight
@@ -4301,7 +4301,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 my_size += write_size(x);
 
@@ -4346,7 +4346,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -4514,7 +4514,7 @@ namespace pigo {
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (size_t v = 0; v < (size_t)n_; ++v)
                 all_degs[v] = 0;
 
             auto coo_x = coo.x();
@@ -4522,7 +4522,7 @@ namespace pigo {
             auto coo_w = coo.w();
 
             #pragma omp for
-            for (O x_id = 0; x_id < m_; ++x_id) {
+            for (size_t x_id = 0; x_id < (size_t)m_; ++x_id) {
                 size_t deg_inc = detail::get_value_<COOStorage, L>(coo_x, x_id);
                 #pragma omp atomic
                 ++all_degs[deg_inc];
@@ -4582,7 +4582,7 @@ namespace pigo {
 
             // Finally, copy over the actual endpoints
             #pragma omp for
-            for (O coo_pos = 0; coo_pos < m_; ++coo_pos) {
+            for (size_t coo_pos = 0; coo_pos < (size_t)m_; ++coo_pos) {
                 L src = detail::get_value_<COOStorage, L>(coo_x, coo_pos);
                 L dst = detail::get_value_<COOStorage, L>(coo_y, coo_pos);
 
@@ -4594,7 +4594,7 @@ namespace pigo {
                 }
                 O this_offset = detail::get_value_<OS, O>(offsets_, src+1) - this_offset_pos;
                 detail::set_value_(endpoints_, this_offset, dst);
-                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, this_offset, coo_w, coo_pos);
+                detail::copy_weight<wgt,W,WS,COOW,COOWS>(weights_, this_offset, coo_w, (O)coo_pos);
             }
 
         }
@@ -5493,7 +5493,7 @@ namespace pigo {
             size_t my_size = 0;
 
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
@@ -5538,7 +5538,7 @@ namespace pigo {
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
@@ -5583,7 +5583,7 @@ namespace pigo {
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (size_t e = 0; e < (size_t)m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
-- 
2.43.0


From e6c159ebae59e1363c7364aa5e151162f7765bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 39/40] fix: count the offsets of a CSR in size_t, so that
 2^32-1 vertices do not wrap to none

---
 include/pigo/impl/csr.impl.hpp | 8 ++++----
 release/pigo.hpp               | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 1598fc4..4251084 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -70,7 +70,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)n_+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -457,7 +457,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -495,7 +495,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -540,7 +540,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
diff --git a/release/pigo.hpp b/release/pigo.hpp
index b6fa647..3c6ae3f 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4420,7 +4420,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, (size_t)n_+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -4807,7 +4807,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -4845,7 +4845,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -4890,7 +4890,7 @@ namespace pigo {
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*((size_t)n_+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
-- 
2.43.0


From c76d0c956885f98e4f8d147983f890d9896cd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:18 +0000
Subject: [PATCH 40/40] fix: every thread of a team copied the COO's vectors to
 make a CSR

---
 include/pigo/impl/csr.impl.hpp | 6 +++---
 release/pigo.hpp               | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 4251084..1414445 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -167,9 +167,9 @@ namespace pigo {
             for (size_t v = 0; v < (size_t)n_; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (size_t x_id = 0; x_id < (size_t)m_; ++x_id) {
diff --git a/release/pigo.hpp b/release/pigo.hpp
index 3c6ae3f..8dbe7ac 100644
--- a/release/pigo.hpp
+++ b/release/pigo.hpp
@@ -4517,9 +4517,9 @@ namespace pigo {
             for (size_t v = 0; v < (size_t)n_; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (size_t x_id = 0; x_id < (size_t)m_; ++x_id) {
-- 
2.43.0

