From 6c63609b4fafb5e331c86d8ed09338e2c15b0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/27] fix: honour escapes behind trimmed spacing, reject them
 behind a closing quote

---
 include/ss/splitter.hpp | 5 +++--
 ssp.hpp                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..9315fa7 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,8 +246,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // only the skipped spacing, what follows it may be an escape
+            return {end > begin ? end - begin : 1, false};
         }
 
         end += delimiter_size(delim);
@@ -374,6 +374,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..a82acbf 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1301,8 +1301,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // only the skipped spacing, what follows it may be an escape
+            return {end > begin ? end - begin : 1, false};
         }
 
         end += delimiter_size(delim);
@@ -1429,6 +1429,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From d5439edf8fa9cd6596f9bb7a8fa020774178a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 02/27] fix: detect the end of file when a row or the header is
 ignored

---
 include/ss/parser.hpp | 7 +++++--
 ssp.hpp               | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..f1dfdfb 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
@@ -758,7 +759,9 @@ private:
     ////////////////
 
     void read_line() {
-        eof_ = !reader_.read_next();
+        if (!eof_) {
+            eof_ = !reader_.read_next();
+        }
     }
 
     struct reader {
diff --git a/ssp.hpp b/ssp.hpp
index a82acbf..f80b99e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2370,7 +2370,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
@@ -3033,7 +3034,9 @@ private:
     ////////////////
 
     void read_line() {
-        eof_ = !reader_.read_next();
+        if (!eof_) {
+            eof_ = !reader_.read_next();
+        }
     }
 
     struct reader {
-- 
2.43.0


From 6fc58307ab8f235bf7b742d1e394881c6f13043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/27] fix: ignore the whole row in ignore_next if it spans
 multiple lines

---
 include/ss/parser.hpp | 16 +++++++++++++---
 ssp.hpp               | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index f1dfdfb..4e1ded8 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -40,7 +40,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -57,7 +57,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -95,6 +95,16 @@ public:
     }
 
     bool ignore_next() {
+        if constexpr (multiline::enabled) {
+            // the whole row is to be ignored, not only its first line
+            if (!eof_) {
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // the errors of an ignored row are ignored too
+                }
+            }
+        }
         read_line();
         return !eof_;
     }
@@ -245,7 +255,7 @@ public:
                                                         header_.size());
 
         if (line() == 0) {
-            ignore_next();
+            read_line();
         }
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index f80b99e..1209471 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2315,7 +2315,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -2332,7 +2332,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -2370,6 +2370,16 @@ public:
     }
 
     bool ignore_next() {
+        if constexpr (multiline::enabled) {
+            // the whole row is to be ignored, not only its first line
+            if (!eof_) {
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // the errors of an ignored row are ignored too
+                }
+            }
+        }
         read_line();
         return !eof_;
     }
@@ -2520,7 +2530,7 @@ public:
                                                         header_.size());
 
         if (line() == 0) {
-            ignore_next();
+            read_line();
         }
     }
 
-- 
2.43.0


From 2e35b66f021d119cea9c0db01880d698be491acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 04/27] fix: skip the header in use_fields if it is preceded by
 ignored empty lines

---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 4e1ded8..cfd0ba2 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -254,7 +256,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             read_line();
         }
     }
@@ -1071,6 +1073,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 1209471..84d4b08 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2318,6 +2318,7 @@ public:
                 read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -2335,6 +2336,7 @@ public:
                 read_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -2529,7 +2531,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             read_line();
         }
     }
@@ -3346,6 +3348,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 1bc0a5ddffb9fec470700deccc639c006ecfd18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/27] fix: reject a header with duplicates each time if
 throw_on_error is set

---
 include/ss/parser.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index cfd0ba2..dad3476 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -573,8 +573,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index 84d4b08..825d870 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2848,8 +2848,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From c60bf86d1a9a44fb6852b3a6b502f502b08bd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 06/27] fix: disable multiline in the header if the setup is
 predefined

---
 include/ss/parser.hpp |  4 ++--
 include/ss/setup.hpp  | 19 +++++++++++++++++++
 ssp.hpp               | 23 +++++++++++++++++++++--
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index dad3476..6c6f5d5 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -31,8 +31,8 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter =
+        ss::splitter<ss::filter_not_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index d0172ba..4b01a08 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -296,4 +296,23 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// setup without multiline
+////////////////
+
+template <typename... Options>
+struct filter_not_multiline
+    : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct filter_not_multiline<setup<Options...>>
+    : filter_not_multiline<Options...> {};
+
+template <typename... Options>
+struct filter_not_multiline<std::tuple<Options...>>
+    : filter_not_multiline<Options...> {};
+
+template <typename... Options>
+using filter_not_multiline_t = typename filter_not_multiline<Options...>::type;
+
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index 825d870..85f414a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1061,6 +1061,25 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// setup without multiline
+////////////////
+
+template <typename... Options>
+struct filter_not_multiline
+    : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct filter_not_multiline<setup<Options...>>
+    : filter_not_multiline<Options...> {};
+
+template <typename... Options>
+struct filter_not_multiline<std::tuple<Options...>>
+    : filter_not_multiline<Options...> {};
+
+template <typename... Options>
+using filter_not_multiline_t = typename filter_not_multiline<Options...>::type;
+
 } /* namespace ss */
 
 namespace ss {
@@ -2306,8 +2325,8 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter =
+        ss::splitter<ss::filter_not_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
-- 
2.43.0


From c932290836079913d5877df4ede9d5aba5ee11d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 07/27] fix: do not move the cursor position backwards at the
 end of a file

---
 include/ss/common.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..086f9e2 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -132,7 +132,9 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index 85f414a..cfa7cfe 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -749,7 +749,9 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From 1aba62ca38464989bbc2862f7997302c8c421f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/27] fix: do not report a stale errno as an allocation
 failure

---
 include/ss/common.hpp | 1 +
 ssp.hpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 086f9e2..fe231d7 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -130,6 +130,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         if (ssize != -1) {
diff --git a/ssp.hpp b/ssp.hpp
index cfa7cfe..4b02a2f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -747,6 +747,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         if (ssize != -1) {
-- 
2.43.0


From b7e23db32d4c5c36dd25f516601a22a55c66fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 09/27] fix: release the buffers and the file when a parser is
 move assigned

---
 include/ss/parser.hpp | 8 ++++++++
 ssp.hpp               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 6c6f5d5..a1d5cfb 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -811,6 +811,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
diff --git a/ssp.hpp b/ssp.hpp
index 4b02a2f..ec755cd 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3108,6 +3108,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
-- 
2.43.0


From 565e11df4d8bf950e1e1870348d233ba9c0cd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 10/27] fix: leave space for the terminator of a floating point
 field

---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index ec755cd..d798edb 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1605,7 +1605,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From 19d2f4f12500a096fa5bdee4e8ad8a76f55a38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 11/27] fix: accept the same floating point fields without
 fast_float

---
 include/ss/extract.hpp | 11 +++++++++++
 ssp.hpp                | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..edceb18 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -14,6 +14,7 @@
 #else
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstdlib>
 #endif
 
@@ -49,6 +50,16 @@ to_num(const char* const begin, const char* const end) {
     std::array<char, buff_max> short_buff;
 
     const size_t string_range = std::distance(begin, end);
+
+    // accepted by strtod but not a part of the number format
+    const char* const digits = (begin != end && *begin == '-') ? begin + 1
+                                                               : begin;
+    if (digits == end || *digits == '+' ||
+        std::isspace(static_cast<unsigned char>(*digits)) ||
+        (end - digits > 1 && (digits[1] == 'x' || digits[1] == 'X'))) {
+        return std::nullopt;
+    }
+
     std::string long_buff;
 
     char* buff = nullptr;
diff --git a/ssp.hpp b/ssp.hpp
index d798edb..237163d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cerrno>
 #include <charconv>
 #include <cstdint>
@@ -1602,6 +1603,16 @@ to_num(const char* const begin, const char* const end) {
     std::array<char, buff_max> short_buff;
 
     const size_t string_range = std::distance(begin, end);
+
+    // accepted by strtod but not a part of the number format
+    const char* const digits = (begin != end && *begin == '-') ? begin + 1
+                                                               : begin;
+    if (digits == end || *digits == '+' ||
+        std::isspace(static_cast<unsigned char>(*digits)) ||
+        (end - digits > 1 && (digits[1] == 'x' || digits[1] == 'X'))) {
+        return std::nullopt;
+    }
+
     std::string long_buff;
 
     char* buff = nullptr;
-- 
2.43.0


From fbe14bb4cad40f7cbaf7af3fa44856bee61160bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 12/27] fix: do not report the split error of a previous line
 for an empty line

---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..a9c1c91 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -191,6 +191,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
diff --git a/ssp.hpp b/ssp.hpp
index 237163d..b76fbc5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2009,6 +2009,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
-- 
2.43.0


From 7f8a8902a9fefc1052d688745cc853965bfcb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 13/27] fix: do not convert the last row again when reading at
 the end of file

---
 include/ss/parser.hpp | 28 ++++++++++++++--------------
 ssp.hpp               | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index a1d5cfb..e6e84ee 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -127,17 +127,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            clear_error();
+            reader_.converter_.splitter_.clear_split_data();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -149,11 +154,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
diff --git a/ssp.hpp b/ssp.hpp
index b76fbc5..295ba92 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2436,17 +2436,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            clear_error();
+            reader_.converter_.splitter_.clear_split_data();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2458,11 +2463,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
-- 
2.43.0


From 6802b87d3312819505a1f0395d6935dd02e6e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 14/27] fix: leave nothing to convert after a multiline row
 could not be read

---
 include/ss/converter.hpp | 3 +++
 ssp.hpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index a9c1c91..6a65802 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -248,6 +248,7 @@ private:
     }
 
     void handle_error_unterminated_escape() {
+        splitter_.clear_split_data();
         if constexpr (string_error) {
             error_.clear();
             splitter_.handle_error_unterminated_escape();
@@ -260,6 +261,7 @@ private:
     }
 
     void handle_error_unterminated_quote() {
+        splitter_.clear_split_data();
         if constexpr (string_error) {
             error_.clear();
             splitter_.handle_error_unterminated_quote();
@@ -274,6 +276,7 @@ private:
     void handle_error_multiline_limit_reached() {
         constexpr static auto error_msg = "multiline limit reached";
         splitter_.unterminated_quote_ = false;
+        splitter_.clear_split_data();
 
         if constexpr (string_error) {
             error_.clear();
diff --git a/ssp.hpp b/ssp.hpp
index 295ba92..f6e9998 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2066,6 +2066,7 @@ private:
     }
 
     void handle_error_unterminated_escape() {
+        splitter_.clear_split_data();
         if constexpr (string_error) {
             error_.clear();
             splitter_.handle_error_unterminated_escape();
@@ -2078,6 +2079,7 @@ private:
     }
 
     void handle_error_unterminated_quote() {
+        splitter_.clear_split_data();
         if constexpr (string_error) {
             error_.clear();
             splitter_.handle_error_unterminated_quote();
@@ -2092,6 +2094,7 @@ private:
     void handle_error_multiline_limit_reached() {
         constexpr static auto error_msg = "multiline limit reached";
         splitter_.unterminated_quote_ = false;
+        splitter_.clear_split_data();
 
         if constexpr (string_error) {
             error_.clear();
-- 
2.43.0


From 6fab3da43af9a7ca1594368013dd2d980b3bd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 15/27] fix: name the line of the row which failed in error
 messages

---
 include/ss/parser.hpp | 7 +++++--
 ssp.hpp               | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index e6e84ee..3374cbe 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -138,6 +138,7 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                row_line_number_ = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e);
             }
@@ -146,6 +147,7 @@ public:
         }
 
         reader_.update();
+        row_line_number_ = reader_.line_number_;
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
             read_line();
@@ -660,7 +662,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -761,7 +763,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_number_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -1082,6 +1084,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    size_t row_line_number_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index f6e9998..0fe4e43 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2450,6 +2450,7 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                row_line_number_ = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e);
             }
@@ -2458,6 +2459,7 @@ public:
         }
 
         reader_.update();
+        row_line_number_ = reader_.line_number_;
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
             read_line();
@@ -2972,7 +2974,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -3073,7 +3075,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_number_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -3394,6 +3396,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    size_t row_line_number_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 7b95de98ebb023b53a36fed1e00772b6027f379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 16/27] fix: advance to the next row if a custom conversion
 throws

---
 include/ss/parser.hpp | 34 ++++++++++++++++++++++------------
 ssp.hpp               | 34 ++++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3374cbe..cdd61d0 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -156,18 +156,7 @@ public:
 
         clear_error();
 
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                read_line();
-                decorate_rethrow(e);
-            }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -768,6 +757,27 @@ private:
                                 .append(e.what())};
     }
 
+    ////////////////
+    // row conversion
+    ////////////////
+
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<T, Ts...>();
+        } catch (const ss::exception& e) {
+            read_line();
+            if constexpr (throw_on_error) {
+                decorate_rethrow(e);
+            }
+            throw;
+        } catch (...) {
+            // thrown by a custom conversion
+            read_line();
+            throw;
+        }
+    }
+
     ////////////////
     // line reading
     ////////////////
diff --git a/ssp.hpp b/ssp.hpp
index 0fe4e43..c8c6949 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2468,18 +2468,7 @@ public:
 
         clear_error();
 
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                read_line();
-                decorate_rethrow(e);
-            }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -3080,6 +3069,27 @@ private:
                                 .append(e.what())};
     }
 
+    ////////////////
+    // row conversion
+    ////////////////
+
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<T, Ts...>();
+        } catch (const ss::exception& e) {
+            read_line();
+            if constexpr (throw_on_error) {
+                decorate_rethrow(e);
+            }
+            throw;
+        } catch (...) {
+            // thrown by a custom conversion
+            read_line();
+            throw;
+        }
+    }
+
     ////////////////
     // line reading
     ////////////////
-- 
2.43.0


From a3dd2d7f20c88547c9c88b7ce3c22657ef7d86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 17/27] fix: report unterminated quotes and escapes in the
 converter if multiline is set

---
 include/ss/converter.hpp |  6 ++++++
 include/ss/splitter.hpp  |  8 ++------
 ssp.hpp                  | 14 ++++++++------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 6a65802..7b4700b 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -366,6 +366,12 @@ private:
             return {};
         }
 
+        // multiline has no effect on a single line
+        if (splitter_.unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 9315fa7..e53dcc2 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -265,9 +265,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -396,9 +394,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
diff --git a/ssp.hpp b/ssp.hpp
index c8c6949..cac6c3a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1343,9 +1343,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -1474,9 +1472,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
@@ -2184,6 +2180,12 @@ private:
             return {};
         }
 
+        // multiline has no effect on a single line
+        if (splitter_.unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
-- 
2.43.0


From 7eaf19e67e4cfe541894f4325910cf1b82ce938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 18/27] fix: return default constructed values if a conversion
 fails

---
 include/ss/converter.hpp | 3 +++
 ssp.hpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 7b4700b..c7296c0 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -491,6 +491,9 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index cac6c3a..67d0556 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2305,6 +2305,9 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
-- 
2.43.0


From 64770e28766e65e440e1fbc0e701aa886baf2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 19/27] fix: read a single character into int8_t and uint8_t

---
 include/ss/extract.hpp | 14 ++++++++++++++
 ssp.hpp                | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index edceb18..8b99280 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -258,6 +258,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
diff --git a/ssp.hpp b/ssp.hpp
index 67d0556..9bc2d45 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1807,6 +1807,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
-- 
2.43.0


From cc69b6cf20fc76ec5a1237c96e043f785920d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 20/27] fix: reject setups which define ignore_header or
 ignore_empty twice

---
 include/ss/setup.hpp | 6 ++++++
 ssp.hpp              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index 4b01a08..7262fa8 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -283,6 +283,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
diff --git a/ssp.hpp b/ssp.hpp
index 9bc2d45..ce36b62 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1052,6 +1052,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
-- 
2.43.0


From 7a1f74954947a4a6850b9330d80ee7454a6653ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 21/27] fix: accept an empty line if only one column is present

---
 include/ss/parser.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index cdd61d0..da6cee1 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -921,7 +921,8 @@ private:
                 }
             }
 
-            next_line_converter_.split(next_line_buffer_, delim_);
+            // unlike for the converter, an empty line is one empty column
+            next_line_converter_.splitter_.split(next_line_buffer_, delim_);
 
             if constexpr (quoted_multiline_enabled) {
                 while (unterminated_quote()) {
diff --git a/ssp.hpp b/ssp.hpp
index ce36b62..299bb2b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3258,7 +3258,8 @@ private:
                 }
             }
 
-            next_line_converter_.split(next_line_buffer_, delim_);
+            // unlike for the converter, an empty line is one empty column
+            next_line_converter_.splitter_.split(next_line_buffer_, delim_);
 
             if constexpr (quoted_multiline_enabled) {
                 while (unterminated_quote()) {
-- 
2.43.0


From 2cfaf89cb676706cbcba5f99566ec38528a363c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 22/27] fix: do not read in front of the line buffer if a line
 starts with NUL

---
 include/ss/common.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index fe231d7..f0ab06c 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -77,7 +77,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
diff --git a/ssp.hpp b/ssp.hpp
index 299bb2b..7265570 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -695,7 +695,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
-- 
2.43.0


From d4a8ff07bec556018278bde39f35e0464d92572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 23/27] fix: convert variants nested in optionals and variants

---
 include/ss/extract.hpp | 4 ++++
 ssp.hpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 8b99280..37d7a21 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -187,6 +187,10 @@ extract(const char* begin, const char* end, T& value) {
     return true;
 }
 
+template <typename T>
+[[nodiscard]] std::enable_if_t<is_instance_of_v<std::variant, T>, bool> extract(
+    const char* begin, const char* end, T& value);
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<is_instance_of_v<std::optional, T>, bool>
 extract(const char* begin, const char* end, T& value) {
diff --git a/ssp.hpp b/ssp.hpp
index 7265570..089ac4e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1742,6 +1742,10 @@ extract(const char* begin, const char* end, T& value) {
     return true;
 }
 
+template <typename T>
+[[nodiscard]] std::enable_if_t<is_instance_of_v<std::variant, T>, bool> extract(
+    const char* begin, const char* end, T& value);
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<is_instance_of_v<std::optional, T>, bool>
 extract(const char* begin, const char* end, T& value) {
-- 
2.43.0


From 1bef8178b985e7e12c5a001f4a27448e64c37469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 24/27] fix: reject delimiters which contain a null character

---
 include/ss/splitter.hpp | 7 +++++++
 ssp.hpp                 | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index e53dcc2..20d176a 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -310,6 +310,13 @@ private:
     const split_data& split_impl_select_delim(
         const std::string& delimiter = default_delimiter) {
         clear_error();
+
+        // lines are null terminated, a null character would match their end
+        if (delimiter.find('\0') != std::string::npos) {
+            handle_error_empty_delimiter();
+            return split_data_;
+        }
+
         switch (delimiter.size()) {
         case 0:
             handle_error_empty_delimiter();
diff --git a/ssp.hpp b/ssp.hpp
index 089ac4e..cdbc9bc 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1394,6 +1394,13 @@ private:
     const split_data& split_impl_select_delim(
         const std::string& delimiter = default_delimiter) {
         clear_error();
+
+        // lines are null terminated, a null character would match their end
+        if (delimiter.find('\0') != std::string::npos) {
+            handle_error_empty_delimiter();
+            return split_data_;
+        }
+
         switch (delimiter.size()) {
         case 0:
             handle_error_empty_delimiter();
-- 
2.43.0


From 16230e2153da6bec926b21897de08f4506854a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 25/27] fix: set the column mapping of both or none of the
 converters

---
 include/ss/parser.hpp | 10 +++++++---
 ssp.hpp               | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index da6cee1..69f52fc 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -243,9 +243,13 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        // copied in advance, both or none of the mappings are to be set
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
             read_line();
diff --git a/ssp.hpp b/ssp.hpp
index cdbc9bc..5b52220 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2591,9 +2591,13 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        // copied in advance, both or none of the mappings are to be set
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
             read_line();
-- 
2.43.0


From 8bc2015e672c5e47158613f2ff24250f3145152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 26/27] fix: do not keep a part of the header if an allocation
 fails

---
 include/ss/parser.hpp | 11 +++++++----
 ssp.hpp               | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 69f52fc..c0bb3e4 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -564,16 +564,19 @@ private:
             return;
         }
 
+        std::vector<std::string> split_header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(split_header.begin(), split_header.end(), field) !=
+                split_header.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            split_header.push_back(std::move(field));
         }
+
+        // set only once complete
+        header_ = std::move(split_header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
diff --git a/ssp.hpp b/ssp.hpp
index 5b52220..a5458c9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2912,16 +2912,19 @@ private:
             return;
         }
 
+        std::vector<std::string> split_header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(split_header.begin(), split_header.end(), field) !=
+                split_header.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            split_header.push_back(std::move(field));
         }
+
+        // set only once complete
+        header_ = std::move(split_header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
-- 
2.43.0


From 6110e82670139d8ed229718ff4ff0302847aa0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 27/27] fix: do not read a line again or twice after a failed
 allocation

---
 include/ss/parser.hpp | 24 +++++++++++++++++++-----
 ssp.hpp               | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index c0bb3e4..b5bab35 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -101,7 +101,7 @@ public:
             // the whole row is to be ignored, not only its first line
             if (!eof_) {
                 try {
-                    reader_.parse();
+                    parse_line();
                 } catch (const ss::exception&) {
                     // the errors of an ignored row are ignored too
                 }
@@ -136,33 +136,33 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                reader_.parse();
+                parse_line();
             } catch (const ss::exception& e) {
                 row_line_number_ = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e);
             }
         } else {
-            reader_.parse();
+            parse_line();
         }
 
         reader_.update();
         row_line_number_ = reader_.line_number_;
         if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
             read_line();
+            handle_error_invalid_conversion();
             return {};
         }
 
         clear_error();
 
         auto value = convert_row<T, Ts...>();
+        read_line();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
         }
 
-        read_line();
         return value;
     }
 
@@ -791,10 +791,24 @@ private:
 
     void read_line() {
         if (!eof_) {
+            // there is no line to read if an allocation fails
+            eof_ = true;
             eof_ = !reader_.read_next();
         }
     }
 
+    void parse_line() {
+        try {
+            reader_.parse();
+        } catch (const ss::exception&) {
+            throw;
+        } catch (...) {
+            // an allocation failed, the rest of the row cannot be read
+            eof_ = true;
+            throw;
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
diff --git a/ssp.hpp b/ssp.hpp
index a5458c9..b48ff8a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2449,7 +2449,7 @@ public:
             // the whole row is to be ignored, not only its first line
             if (!eof_) {
                 try {
-                    reader_.parse();
+                    parse_line();
                 } catch (const ss::exception&) {
                     // the errors of an ignored row are ignored too
                 }
@@ -2484,33 +2484,33 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                reader_.parse();
+                parse_line();
             } catch (const ss::exception& e) {
                 row_line_number_ = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e);
             }
         } else {
-            reader_.parse();
+            parse_line();
         }
 
         reader_.update();
         row_line_number_ = reader_.line_number_;
         if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
             read_line();
+            handle_error_invalid_conversion();
             return {};
         }
 
         clear_error();
 
         auto value = convert_row<T, Ts...>();
+        read_line();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
         }
 
-        read_line();
         return value;
     }
 
@@ -3139,10 +3139,24 @@ private:
 
     void read_line() {
         if (!eof_) {
+            // there is no line to read if an allocation fails
+            eof_ = true;
             eof_ = !reader_.read_next();
         }
     }
 
+    void parse_line() {
+        try {
+            reader_.parse();
+        } catch (const ss::exception&) {
+            throw;
+        } catch (...) {
+            // an allocation failed, the rest of the row cannot be read
+            eof_ = true;
+            throw;
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
-- 
2.43.0

