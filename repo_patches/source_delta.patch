From 6eb71f20eb3550cef9258eadc03cabdefe6d0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 01/52] fix: fixed-form text that starts past the last column
 is only a comment

A line whose first text lies beyond last_column was split with a
wrapped-around length: the text appeared both as the body and as the
trailing comment (or the line was rejected).
---
 src/flpr/File_Line.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..2be5eb6 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -99,6 +99,14 @@ File_Line File_Line::analyze_fixed(int const linenum,
     return File_Line(linenum, bits, raw_txt);
   }
 
+  // If all of the text is past the last column, it is only a comment
+  if (last_column > 0 && ri >= static_cast<ST>(last_column)) {
+    if (raw_txt[ri] != '!')
+      raw_txt.insert(ri, "! ");
+    SET_CLASS(comment);
+    return File_Line(linenum, bits, raw_txt);
+  }
+
   const char c = std::toupper(raw_txt[ri]);
 
   if (ri != 5) // continuation trumps everything
@@ -155,7 +163,8 @@ File_Line File_Line::analyze_fixed(int const linenum,
     if (!left_text.empty() && prev_open_delim == '\0') {
       while (ri < raw_txt.size() && std::isspace(raw_txt[ri]))
         ri += 1;
-      if (ri == raw_txt.size()) {
+      if (ri == raw_txt.size() ||
+          (last_column > 0 && ri >= static_cast<ST>(last_column))) {
         SET_CLASS(blank);
         return File_Line(linenum, bits, raw_txt);
       }
-- 
2.43.0


From a3b78458eecdf718ab27d87684c2c7396c3643b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 02/52] fix: unspace_main keeps the leading blanks it removes
 from the body

---
 src/flpr/File_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 2be5eb6..03cc070 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -353,6 +353,7 @@ void File_Line::unspace_main() {
     set_classification(class_flags::blank);
     return;
   } else if (fnb > 0) {
+    left_space.append(fnb, ' ');
     main_txt.erase(0, fnb);
   }
   auto lnb = main_txt.find_last_not_of(' ');
-- 
2.43.0


From 3b0e99dada6fa2dc96d7f0f6afb52d3060344d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 03/52] fix: make_continued leaves a line that already ends in
 an ampersand alone

---
 src/flpr/File_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 03cc070..d7277d0 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -388,11 +388,13 @@ void File_Line::make_uncontinued() {
 void File_Line::make_continued() {
   auto &bits = classification_;
   SET_CLASS(continued);
+  if (!right_txt.empty() && right_txt[0] == '&')
+    return; // already there (a space here could be in a character context)
   if (right_space.empty())
     right_space.assign(1, ' ');
   if (right_txt.empty())
     right_txt.assign(1, '&');
-  else if (right_txt[0] != '&') {
+  else {
     right_txt.insert(0, "& ");
     /* If there is room, adjust right_space so that we don't change
        the start of a trailing comment */
-- 
2.43.0


From a899b6b4f2b6cd07166d862eda45d51264401b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 04/52] fix: make_comment_or_blank keeps the trailing comment

---
 src/flpr/File_Line.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index d7277d0..8a96712 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -448,14 +448,14 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
-    left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
+    left_txt.assign(is_fixed_format ? 6 : left_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
     classification_.reset();
     classification_[ff] = is_fixed_format;
     classification_[com] = true;
-- 
2.43.0


From 9ac0f6daa0a8bde89a608d62ce55515baacc1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 05/52] fix: re-indenting a fixed-form comment line does not
 erase its text up to a '!'

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 8a96712..548ce13 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -471,8 +471,8 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
-    if (pos != std::string::npos) {
+    std::string::size_type pos = left_txt.find_first_not_of(" \t\r");
+    if (pos != std::string::npos && left_txt[pos] == '!') {
       left_space.clear();
       main_txt.clear();
       right_space.clear();
-- 
2.43.0


From f3b92f1188977d303835bd8151e443d282d2d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 06/52] fix: set_leading_spaces does not read an unset offset,
 and says false when nothing changed

---
 src/flpr/File_Line.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 548ce13..b2efc9d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -521,7 +521,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
+    int offset{0};
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -561,9 +561,13 @@ bool File_Line::set_leading_spaces(int const spaces) {
           assert(pos != std::string::npos);
           size_t const desired = orig_spaces - spaces;
           size_t const remove_count = std::min(pos, desired);
+          if (remove_count == 0)
+            return false; // no change possible
           offset = -remove_count;
           left_txt.erase(0, remove_count);
         }
+      } else {
+        return false; // fixed-format continuation or initial line mark
       }
     }
     /* See if we can adjust spacing to leave right_txt comments in their
-- 
2.43.0


From d03c730dbf36ed5650ca9e550c4ccc2214c684dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 07/52] fix: moving a body left does not insert past the end of
 the right space

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index b2efc9d..0e4abd3 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -578,7 +578,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From 6f971c36de4000bc383b26d1ac9e60a6d01d36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 08/52] fix: get_leading_spaces counts the right space, not the
 right text

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 0e4abd3..a28612b 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -609,7 +609,7 @@ int File_Line::get_leading_spaces() const noexcept {
         pos = right_txt.find('!');
         if (pos != std::string::npos) {
           retval = left_txt.size() + left_space.size() + main_txt.size() +
-                   right_txt.size() + pos;
+                   right_space.size() + pos;
         }
       }
     }
-- 
2.43.0


From d7aae54e094ccb0ed629ffc764db5359b3ff0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 09/52] fix: set_label(0) clears the label

---
 src/flpr/File_Line.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index a28612b..cfa4307 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -628,6 +628,14 @@ bool File_Line::set_label(int new_label) {
 
   if (new_label == 0 && !has_label())
     return false;
+  if (new_label == 0) {
+    /* clear the label, leaving the body where it is */
+    if (!is_fixed_format())
+      left_space.append(left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
     if (left_txt.empty()) {
       left_txt = std::to_string(new_label);
-- 
2.43.0


From 6a497a74ac8d348ab346e6301c78deee44fe0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 10/52] fix: F90 names a free-form file

---
 src/flpr/File_Info.cc | 4 ++--
 src/flpr/File_Info.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/File_Info.cc b/src/flpr/File_Info.cc
index 0e5ae3f..1695227 100644
--- a/src/flpr/File_Info.cc
+++ b/src/flpr/File_Info.cc
@@ -50,9 +50,9 @@ FLPR::File_Type file_type_from_extension(std::string const &filename) {
               << "filename extension for \"" << filename << "\"\n";
   } else {
     const std::string extension = filename.substr(ptpos + 1);
-    if (extension == "f" || extension == "F" || extension == "F90") {
+    if (extension == "f" || extension == "F") {
       file_type = File_Type::FIXEDFMT;
-    } else if (extension == "f90") {
+    } else if (extension == "f90" || extension == "F90") {
       file_type = File_Type::FREEFMT;
     } else {
       std::cerr << "FLPR::file_type_from_extension: Error: unrecognized "
diff --git a/src/flpr/File_Info.hh b/src/flpr/File_Info.hh
index 65ea120..57cb16f 100644
--- a/src/flpr/File_Info.hh
+++ b/src/flpr/File_Info.hh
@@ -24,7 +24,7 @@ namespace FLPR {
 enum class File_Type {
   UNKNOWN,
   FIXEDFMT, //!< .f or .F file
-  FREEFMT   //!< .f90 file
+  FREEFMT   //!< .f90 or .F90 file
 };
 
 //! Basic information about an actual file
-- 
2.43.0


From bb218cc24bc0b0df360bca5f8947946bdc35a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 11/52] fix: a parenthesised expression starts at its first
 token

move_to_close_paren and move_before_close_paren skipped the token after the
open parenthesis without looking at it, so '()' and '((a))' were mismatched.
---
 src/flpr/TT_Stream.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index a8e38ba..813f343 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -109,7 +109,6 @@ void TT_Stream::w_general(char const *const warnmsg) const {
 // substrings.
 bool TT_Stream::move_to_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -128,7 +127,6 @@ bool TT_Stream::move_to_close_paren() {
 // substrings.
 bool TT_Stream::move_before_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
-- 
2.43.0


From 4a6595e3f927629a7a927aeff4c8ce652cddf6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 12/52] fix: ignore_bracket_expr reports a balanced expression

nesting_depth ends at 0 when the brackets balance; it can never be -1, so
the function always reported failure.
---
 src/flpr/TT_Stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index 813f343..605b81a 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -174,7 +174,7 @@ bool TT_Stream::ignore_bracket_expr() {
       break;
     consume();
   }
-  return nesting_depth == -1;
+  return nesting_depth == 0;
 }
 
 void TT_Stream::debug_print(std::ostream &os) const {
-- 
2.43.0


From a0ce627381a4e49fc3c12a13963882a7625a8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 13/52] fix: peek beyond the end of the line gives BAD

peek(offset) and peek_tt(offset) compared one iterator with end(), so an
offset that reached more than one token past the end returned tokens of the
next statement, or walked off the token list.
---
 src/flpr/TT_Stream.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/flpr/TT_Stream.hh b/src/flpr/TT_Stream.hh
index 9430352..4822d48 100644
--- a/src/flpr/TT_Stream.hh
+++ b/src/flpr/TT_Stream.hh
@@ -184,7 +184,13 @@ inline int TT_Stream::curr() const { return curr_tt().token; }
 inline Token_Text const &TT_Stream::peek_tt(int const offset) const {
   static const Token_Text bad_tt;
   // the -1 is because next_token_ is already advanced one.
-  auto tmp = std::next(next_tok_, offset - 1);
+  int steps = offset - 1;
+  auto tmp = next_tok_;
+  // don't walk past the end of the line
+  for (; steps > 0 && tmp != ll_tt_range_.end(); --steps)
+    ++tmp;
+  if (steps < 0)
+    std::advance(tmp, steps);
   if (tmp != ll_tt_range_.end())
     return *tmp;
   else
-- 
2.43.0


From 1633976cd086b598aaa81d11c96a0a831da7552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:21 +0000
Subject: [PATCH 14/52] fix: Safe_List::remove_if leaves the sentry alone

---
 src/flpr/Safe_List.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..a8b3796 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -108,10 +108,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // The sentry is not an element, so the predicate does not get to see it
+    for (iterator it = list_.begin(); it != my_end_;) {
+      if (p(*it))
+        it = list_.erase(it);
+      else
+        ++it;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From 2410aa480ec68f41c6efd3139b0ab89131d829ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:38 +0000
Subject: [PATCH 15/52] fix: comments and blanks do not interrupt a character
 context continued across them

---
 src/flpr/Logical_File.cc | 11 ++++++++---
 src/flpr/Logical_Line.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..e96bf89 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    // Comments and blanks do not interrupt a continued character context
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -196,8 +198,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    // Comments and blanks do not interrupt a continued statement
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..93e4c16 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,11 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    // Comments and blanks do not interrupt a continued statement
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
@@ -103,7 +106,9 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    // Comments and blanks do not interrupt a continued character context
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From d15a2f73d8e0a0cff16d6528ac1f5c3ff22c4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:38 +0000
Subject: [PATCH 16/52] fix: a continued statement that reaches the end of the
 file is one logical line

---
 src/flpr/Logical_File.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index e96bf89..13274eb 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -272,9 +272,10 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
 
       size_t last_code_line = curr;
       while (curr < N) {
-        if (!fl[curr].is_trivial() && !fl[curr].is_continued()) {
+        if (!fl[curr].is_trivial()) {
           last_code_line = curr;
-          break;
+          if (!fl[curr].is_continued())
+            break;
         }
         curr += 1;
       }
-- 
2.43.0


From 0bd7ea5ab45107f5e5c04d2f1397e34ce559a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:51 +0000
Subject: [PATCH 17/52] fix: tokens after a comment inside a statement refer to
 their own line of the layout

---
 src/flpr/Logical_Line.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 93e4c16..4f6c79c 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -128,14 +128,19 @@ void Logical_Line::clear() noexcept {
 void Logical_Line::init_from_layout() noexcept {
   Line_Accum la;
 
+  bool have_code{false};
   for (auto &fl : layout_) {
     if (!fl.is_trivial()) {
       int const first_col = fl.main_first_col();
 
       /* need to add the left and right space sizes here so that continued lines
          have the correct breaks between lexemes. */
-      la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
-                  fl.right_space.size());
+      la.add_line(fl.linenum, have_code ? fl.left_space.size() : 0, first_col,
+                  fl.main_txt, fl.right_space.size());
+      have_code = true;
+    } else {
+      /* an empty entry keeps the line indices of the tokens those of layout_ */
+      la.add_line(fl.linenum, 0, 1, std::string(), 0);
     }
   }
 
-- 
2.43.0


From 535662128bd04bf28d38a3cb2f643b9cc4f9c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:51 +0000
Subject: [PATCH 18/52] fix: the first token of a text that starts with blanks
 starts after them

---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 4f6c79c..b3e9557 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -768,6 +768,9 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  /* an edit may have left blanks in front of the first token */
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From daba9be7aefb825ec2c2d23e7353d3936dc736f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:33 +0000
Subject: [PATCH 19/52] fix: both halves of two keywords written together know
 their position and spacing

---
 src/flpr/Logical_Line.cc | 27 ++++++++++++++++++++-------
 src/flpr/Logical_Line.hh |  5 +++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index b3e9557..7286d8f 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -782,8 +782,21 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
     /* Break up keywords with no space. */
-    if (result_tok == Syntax_Tags::TK_NAME)
-      unsmash();
+    int const split_pos = (result_tok == Syntax_Tags::TK_NAME) ? unsmash() : 0;
+    if (split_pos > 0) {
+      /* position the first half, and start the second one where it ends */
+      Token_Text &first{*std::prev(fragments_.end(), 2)};
+      first.mt_begin_line_ = tli;
+      first.mt_begin_col_ = tci;
+      first.pre_spaces_ = next_pre_sp;
+      la.linecolno(tok_start_col + split_pos - 1, li, ci, tli, tci);
+      first.mt_end_line_ = tli;
+      first.mt_end_col_ = tci + 1;
+      la.linecolno(tok_start_col + split_pos, li, ci, tli, tci);
+      fragments_.back().start_line = li;
+      fragments_.back().start_pos = ci;
+      next_pre_sp = 0;
+    }
 
     /* calculate the "end" address (one character beyond the last character of
        the token */
@@ -841,18 +854,18 @@ void Logical_Line::append_comment(std::string const &comment_text) {
 }
 
 /* ------------------------------------------------------------------------ */
-void Logical_Line::unsmash() {
+int Logical_Line::unsmash() {
   using details_::Smash_Hash;
   using details_::Smashed;
   if (fragments_.empty())
-    return;
+    return 0;
   if (fragments_.back().token != Syntax_Tags::TK_NAME)
-    return;
+    return 0;
 
   Smashed const *ptr = Smash_Hash::in_word_set(
       fragments_.back().lower().c_str(), fragments_.back().text().size());
   if (!ptr)
-    return;
+    return 0;
   Token_Text new2{fragments_.back()};
 
   // Alter the first token in place
@@ -864,9 +877,9 @@ void Logical_Line::unsmash() {
   // Add a new second token
   new2.token = ptr->tok2;
   new2.mod_text().erase(0, ptr->splitpos);
-  new2.start_pos += ptr->splitpos;
   new2.pre_spaces_ = 0;
   fragments_.emplace_back(std::move(new2));
+  return ptr->splitpos;
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..90713d4 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -226,8 +226,9 @@ private:
 
   //! If the last token in fragments is actually two (no space), split it
   /*! This handles the exception to the free-format spacing rules found
-    in section 6.3.2.2 of the standard */
-  void unsmash();
+    in section 6.3.2.2 of the standard.
+    \returns the length of the first of the two tokens, 0 if not split */
+  int unsmash();
 
   //! Append a token to main_txt if it fits within max_len characters
   bool append_tt_if_(std::string &main_txt, size_t max_len,
-- 
2.43.0


From ae25633394f8be457508e7e7c04dff785083e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 20/52] fix: replace_fragment moves the end of the fragment it
 replaces

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 7286d8f..c2126fe 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -330,6 +330,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
-- 
2.43.0


From bde662290d266793d2134fd8598e6c5e40384333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:24 +0000
Subject: [PATCH 21/52] fix: replace_main_text keeps every added line continued
 and can shorten a statement

---
 src/flpr/Logical_Line.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index c2126fe..b0f5d25 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -398,9 +398,12 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
     ref_fl.left_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
+    ref_fl.unset_classification(File_Line::class_flags::continuation);
+    ref_fl.right_space.clear();
     ref_fl.right_txt.clear();
+    ref_fl.make_continued();
     ref_fl.set_leading_spaces(indent);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
@@ -410,10 +413,9 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   for (std::string const &s : new_text) {
     layout_[fl_idx++].main_txt = s;
   }
-  assert(ref_line < fl_idx);
 
   /* fix continuations */
-  if (ref_line < fl_idx - 1) {
+  if (ref_line + 1 < fl_idx) {
     layout_[ref_line].make_continued();
   }
   layout_[fl_idx - 1].make_uncontinued();
-- 
2.43.0


From 8d79d72c9c4c362d8ee1ee693fa0633e97d97e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 22/52] fix: text_from_frags updates the positions of the
 tokens and keeps text off blank lines

---
 src/flpr/Logical_Line.cc | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index b0f5d25..1987854 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -188,12 +188,13 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
   // Add (or move to) the next line in text
   do
     std::advance(curr, 1);
-  while (curr != text.end() && curr->is_comment());
+  while (curr != text.end() && curr->is_trivial());
 
   if (curr == text.end())
     curr = text.insert(text.end(), File_Line());
   else {
     curr->left_txt.clear();
+    curr->unset_classification(File_Line::class_flags::continuation);
     curr->make_uncontinued();
     curr->main_txt.clear();
   }
@@ -237,6 +238,10 @@ void Logical_Line::text_from_frags() noexcept {
     do {
       if (append_tt_if_(fline_it->main_txt, max_llen, *tt_it, line_start)) {
         //	    std::cout << "APPEND " << redo << ' ' << *tt_it << '\n';
+        tt_it->mt_begin_line_ = std::distance(layout_.begin(), fline_it);
+        tt_it->mt_end_line_ = tt_it->mt_begin_line_;
+        tt_it->mt_end_col_ = fline_it->main_txt.size();
+        tt_it->mt_begin_col_ = tt_it->mt_end_col_ - tt_it->text().size();
         redo = 0;
         line_start = false;
         continue;
@@ -253,9 +258,16 @@ void Logical_Line::text_from_frags() noexcept {
         size_t split_size = token_size / splits + 1;
         size_t pos{0}, count{split_size};
 
+        tt_it->mt_begin_line_ = std::distance(layout_.begin(), fline_it);
+        tt_it->mt_begin_col_ = fline_it->main_txt.size();
         for (size_t i = 0; i < splits; ++i) {
-          if (i > 0)
-            fline_it->main_txt.append(1, '&');
+          if (i > 0) {
+            // no space between the leading ampersand and the text
+            fline_it->left_txt.swap(fline_it->left_space);
+            fline_it->left_txt.append(1, '&');
+            fline_it->set_classification(
+                File_Line::class_flags::continuation);
+          }
           fline_it->main_txt.append(tt_it->text().substr(pos, count));
           // Move the continuation ampersand in close
           if (i + 1 != splits) {
@@ -265,6 +277,8 @@ void Logical_Line::text_from_frags() noexcept {
           }
           pos = pos + count;
         }
+        tt_it->mt_end_line_ = std::distance(layout_.begin(), fline_it);
+        tt_it->mt_end_col_ = fline_it->main_txt.size();
         line_start = false;
         add_line = false;
         redo = 0;
@@ -294,17 +308,22 @@ void Logical_Line::text_from_frags() noexcept {
   while (fline_it != layout_.end()) {
     if (!fline_it->is_comment()) {
       fline_it->make_uncontinued();
-      if (fline_it->right_txt.empty()) {
-        fline_it->set_classification(File_Line::class_flags::blank);
+      fline_it->make_comment_or_blank();
+      if (fline_it->is_blank())
         blanked = true;
-      } else {
-        fline_it->main_txt.clear();
-        fline_it->set_classification(File_Line::class_flags::comment);
-      }
     }
     std::advance(fline_it, 1);
   }
   if (blanked) {
+    // The lines that are about to be removed no longer count
+    auto const num_blank = [this](int const line) {
+      return std::count_if(layout_.begin(), layout_.begin() + line,
+                           [](File_Line const &fl) { return fl.is_blank(); });
+    };
+    for (auto &tt : fragments_) {
+      tt.mt_begin_line_ -= num_blank(tt.mt_begin_line_);
+      tt.mt_end_line_ -= num_blank(tt.mt_end_line_);
+    }
     auto newend =
         std::remove_if(layout_.begin(), layout_.end(),
                        [](File_Line const &fl) { return fl.is_blank(); });
-- 
2.43.0


From 19dfd7aa59f773302a3466d851fb96690d0da2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:55 +0000
Subject: [PATCH 23/52] fix: replacing text keeps the continuation of a
 statement that goes on after it

---
 src/flpr/Logical_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 1987854..039845c 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -474,8 +474,9 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
       layout_[stln].make_comment_or_blank();
   }
 
+  /* the statement may go on after eln */
   int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
+  for (int i = hold_stln; i < static_cast<int>(layout_.size()); ++i)
     if (layout_[i].is_fortran())
       count_fortran += 1;
   if (count_fortran == 1)
-- 
2.43.0


From fb45c4ff6b7b9fbbf4d263d2674691511287bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 24/52] fix: split_after keeps positions and text of both
 halves in step

---
 src/flpr/Logical_Line.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 039845c..ec833ed 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -534,9 +534,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const num_left_sp = layout_[0].main_first_col() - 1;
+  /* main_first_col() is zero if there is no main_txt left on the line */
+  auto const num_left_sp = std::max(layout_[0].main_first_col() - 1, 0);
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
@@ -550,6 +551,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     lr_beg = std::next(lr_beg);
   }
 
+  /* nothing to export */
+  if (lr_beg == lr_end && split_line + 1 == static_cast<int>(layout_.size()))
+    return false;
+
   FL_VEC::iterator export_beg;
 
   /* if the range isn't empty, insert a new layout_ line, move the remainder
@@ -584,7 +589,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* no space may be added if the next token is split across lines */
+      if (!export_beg->right_space.empty() &&
+          export_beg->right_space.size() != new_rs) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
@@ -594,6 +601,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* clean new: remove left_txt */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -616,6 +625,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
+    /* cleanup the source: remove semicolons past the end of frag */
+    layout_[split_line].main_txt.erase(frag->mt_end_col_);
+
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
 
@@ -629,13 +641,11 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
+      non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
     }
   }
 
-  if (export_beg == layout_.end())
-    return false;
-
   new_ll.clear();
 
   /* Export all of the remainder lines out to new_ll */
@@ -650,7 +660,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
+  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
     tt.mt_begin_line_ -= move_up;
     tt.mt_end_line_ -= move_up;
-- 
2.43.0


From 50592aacfdb79d517584efb26338a3986833971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:18 +0000
Subject: [PATCH 25/52] fix: replacing the only token of a line that starts
 with blanks

---
 src/flpr/Logical_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index ec833ed..f33f226 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -492,7 +492,9 @@ void Logical_Line::replace_stmt_substr(TT_Range const &orig,
   int const el = orig.back().mt_end_line_;
   int const ec = orig.back().mt_end_col_;
   erase_stmt_text_(sl, sc, el, ec);
-  layout_[sl].main_txt.insert(sc, new_text);
+  /* if only blanks were left they are gone, too */
+  std::string &main_txt = layout_[sl].main_txt;
+  main_txt.insert(std::min(static_cast<size_t>(sc), main_txt.size()), new_text);
   init_from_layout();
 }
 
-- 
2.43.0


From 78179514d4d9d2adf2ddb88835289e2de0d8773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 26/52] fix: laying out a token longer than a line keeps
 comments out of it

---
 src/flpr/Logical_Line.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index f33f226..7f96d0d 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -257,6 +257,8 @@ void Logical_Line::text_from_frags() noexcept {
         size_t splits = token_size / max_llen + 1;
         size_t split_size = token_size / splits + 1;
         size_t pos{0}, count{split_size};
+        // Comments can't follow the ampersands inside of a token
+        std::string comments;
 
         tt_it->mt_begin_line_ = std::distance(layout_.begin(), fline_it);
         tt_it->mt_begin_col_ = fline_it->main_txt.size();
@@ -271,12 +273,20 @@ void Logical_Line::text_from_frags() noexcept {
           fline_it->main_txt.append(tt_it->text().substr(pos, count));
           // Move the continuation ampersand in close
           if (i + 1 != splits) {
+            fline_it->make_uncontinued();
+            comments += fline_it->right_txt;
+            fline_it->right_txt.clear();
             fline_it->make_continued();
             fline_it->right_space.clear();
             fline_it = continue_fl(layout_, fline_it);
           }
           pos = pos + count;
         }
+        if (!comments.empty()) {
+          if (fline_it->right_space.empty())
+            fline_it->right_space.assign(1, ' ');
+          fline_it->right_txt.insert(0, comments);
+        }
         tt_it->mt_end_line_ = std::distance(layout_.begin(), fline_it);
         tt_it->mt_end_col_ = fline_it->main_txt.size();
         line_start = false;
-- 
2.43.0


From 89a211bef8edd519ede1cd72c3b232ca2d08e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:25 +0000
Subject: [PATCH 27/52] fix: text_from_frags works on lines that start with
 comments

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 7f96d0d..23da496 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -226,7 +226,10 @@ void Logical_Line::text_from_frags() noexcept {
   if (layout_.empty())
     return;
   auto fline_it = layout_.begin();
-  if (!fline_it->is_fortran())
+  // There can be comments in front of the code
+  while (fline_it != layout_.end() && fline_it->is_trivial())
+    std::advance(fline_it, 1);
+  if (fline_it == layout_.end() || !fline_it->is_fortran())
     return;
   fline_it->main_txt.clear();
   fline_it->make_uncontinued();
-- 
2.43.0


From 0079da6b0554dd57db81f2f4b6978bec5648c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:02 +0000
Subject: [PATCH 28/52] fix: splitting a compound line keeps the statement
 before the split valid

---
 src/flpr/Logical_File.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 13274eb..ff62358 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -323,6 +323,11 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
   assert(!ll_seq_new->stmts().empty());
   assert(ll_seq_orig->stmts().size() + ll_seq_new->stmts().size() == num_stmts);
 
+  /* the token that ended prev_stmt is gone, and it may be alone now */
+  prev_stmt->assign_range(ll_seq_orig->stmts().back());
+  if (ll_seq_orig->stmts().size() == 1)
+    prev_stmt->set_compound(0);
+
   /* update statements inplace for the new Logical_Line */
   LL_Stmt_Src ss{ll_seq_new, false};
   size_t num_changed{0};
@@ -430,8 +435,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -446,7 +451,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From 76a0ab706984104a3dbc43ac448ec9aa23c382b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 29/52] fix: the label of a line that starts with comments is
 that of its code

---
 src/flpr/Logical_Line.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 23da496..f6ca180 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -144,12 +144,15 @@ void Logical_Line::init_from_layout() noexcept {
     }
   }
 
-  if (layout_.front().has_label()) {
-    assert(!layout_.front().left_txt.empty());
+  auto const first = std::find_if(
+      layout_.begin(), layout_.end(),
+      [](File_Line const &fl) { return !fl.is_trivial(); });
+  if (first != layout_.end() && first->has_label()) {
+    assert(!first->left_txt.empty());
     std::size_t pos;
-    label = std::stoi(layout_.front().left_txt, &pos);
-    if (pos < layout_.front().left_txt.size()) {
-      std::cerr << "Label \"" << layout_.front().left_txt
+    label = std::stoi(first->left_txt, &pos);
+    if (pos < first->left_txt.size()) {
+      std::cerr << "Label \"" << first->left_txt
                 << "\" not fully converted to integer" << std::endl;
     }
   } else
@@ -798,7 +801,13 @@ bool Logical_Line::set_leading_spaces(int const spaces, int continued_offset) {
 bool Logical_Line::set_label(int new_label) {
   if (new_label == label)
     return false;
-  layout_[0].set_label(new_label);
+  // There can be comments in front of the code
+  auto const first = std::find_if(
+      layout_.begin(), layout_.end(),
+      [](File_Line const &fl) { return !fl.is_trivial(); });
+  if (first == layout_.end())
+    return false;
+  first->set_label(new_label);
   label = new_label;
   return true;
 }
-- 
2.43.0


From 805bf5ecb3dfc730be024d57e603476204843039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 30/52] fix: converting a labelled or zero-marked initial line
 to free form keeps its columns

---
 src/flpr/Logical_File.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index ff62358..94035b8 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -540,8 +540,12 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
-              fl.left_space.insert(0, 6, ' ');
+            if (!fl.has_label()) {
+              /* a zero in control column 6 marks an initial line, too */
+              fl.left_txt.clear();
+            }
+            if (fl.left_txt.size() < 6) {
+              fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
             }
           } else {
             /* Need to adjust the control column 6 continuation mark */
-- 
2.43.0


From 0fe2872485b76756a0de1bd6840c96df18fda31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 31/52] fix: converting a continued text with comments between
 its lines to free form

---
 src/flpr/Logical_File.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 94035b8..89ab55b 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -19,7 +19,6 @@
 
 #include <cassert>
 #include <cctype>
-#include <deque>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -511,11 +510,11 @@ bool Logical_File::convert_fixed_to_free() {
 
       /* Scan the tokens to find multiline tokens (continued strings or tokens
          that are split across two lines */
-      std::deque<size_t> needs_front_continuation;
+      std::set<size_t> needs_front_continuation;
       for (auto const &tt : ll.fragments()) {
         if (tt.is_split_token_()) {
           for (int fli = tt.mt_begin_line_ + 1; fli <= tt.mt_end_line_; ++fli) {
-            needs_front_continuation.push_back(static_cast<size_t>(fli));
+            needs_front_continuation.insert(static_cast<size_t>(fli));
           }
         }
       }
@@ -551,9 +550,7 @@ bool Logical_File::convert_fixed_to_free() {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
 
-            if (!needs_front_continuation.empty() &&
-                needs_front_continuation.front() == curr_idx) {
-              needs_front_continuation.pop_front();
+            if (needs_front_continuation.count(curr_idx)) {
               fl.left_txt[5] = '&';
             } else {
               layout[curr_idx].unset_classification(
-- 
2.43.0


From 606a98b56b3a8260b0cc18cd066099488216196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 32/52] fix: text past the last column stays out of a character
 context converted to free form

---
 src/flpr/Logical_File.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 89ab55b..e511c7a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -519,10 +519,23 @@ bool Logical_File::convert_fixed_to_free() {
         }
       }
 
+      /* Text past the last column cannot follow the continuation mark of an
+         open character context, so it moves to the end of that context */
+      std::string held_comment;
+
       size_t curr_fortran_line{0};
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
         if (layout[curr_idx].is_fortran()) {
           File_Line &fl = layout[curr_idx];
+          if (fl.open_delim != '\0') {
+            held_comment += fl.right_txt;
+            fl.right_txt.clear();
+          } else if (!held_comment.empty()) {
+            if (fl.right_space.empty())
+              fl.right_space.assign(1, ' ');
+            fl.right_txt += held_comment;
+            held_comment.clear();
+          }
           if (curr_fortran_line + 1 < total_fortran_lines) {
             /* Need to add a trailing continuation mark */
             if (fl.right_txt.empty()) {
-- 
2.43.0


From 96ed7f5531b1e20a3584c90beda551849044ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 33/52] fix: a continuation line without a body is blank in
 free form, too

---
 src/flpr/Logical_File.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index e511c7a..762c137 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -496,6 +496,9 @@ bool Logical_File::convert_fixed_to_free() {
     const size_t N_FL{layout.size()};
 
     for (size_t i = 0; i < N_FL; ++i) {
+      /* a continuation without a body is blank, but has a mark in column 6 */
+      if (layout[i].is_blank())
+        layout[i].make_blank();
       layout[i].unset_classification(File_Line::class_flags::fixed_format);
     }
 
-- 
2.43.0


From 96b9b95a8ef482c42fcd4c1306904a84804295f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 34/52] fix: an ampersand past the last column of a fixed-form
 line is no continuation mark when converted to free form

---
 src/flpr/Logical_File.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 762c137..b1b2bf6 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -530,11 +530,23 @@ bool Logical_File::convert_fixed_to_free() {
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
         if (layout[curr_idx].is_fortran()) {
           File_Line &fl = layout[curr_idx];
+          /* An ampersand past the last column is commentary in fixed form, but
+             a continuation mark in free form, and those are set below */
+          size_t pos = fl.right_txt.find_first_not_of(" \t\r");
+          if (pos != std::string::npos && fl.right_txt[pos] == '&') {
+            fl.right_txt.erase(0, pos + 1);
+            pos = fl.right_txt.find_first_not_of(" \t\r");
+            if (pos == std::string::npos)
+              fl.right_txt.clear();
+            else if (fl.right_txt[pos] != '!')
+              fl.right_txt.insert(0, "! ");
+          }
           if (fl.open_delim != '\0') {
             held_comment += fl.right_txt;
             fl.right_txt.clear();
           } else if (!held_comment.empty()) {
-            if (fl.right_space.empty())
+            if (fl.right_space.empty() &&
+                curr_fortran_line + 1 == total_fortran_lines)
               fl.right_space.assign(1, ' ');
             fl.right_txt += held_comment;
             held_comment.clear();
-- 
2.43.0


From d2f0d08fa6785ec8f881e1fcf54c6848526ef044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 35/52] fix: sync-images-stmt is tagged as what it is, not as
 sync-all-stmt

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..18d2578 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3348,7 +3348,7 @@ Stmt_Tree sync_all_stmt(TT_Stream &ts) {
 
 //! R1164: sync-images-stmt (11.6.3)
 Stmt_Tree sync_images_stmt(TT_Stream &ts) {
-  RULE(SG_SYNC_ALL_STMT);
+  RULE(SG_SYNC_IMAGES_STMT);
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_SYNC),
-- 
2.43.0


From ab4972bcda857df79dc954b92a91e904ac640f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 36/52] fix: submodule-stmt takes the name of the submodule

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 18d2578..fdc37f4 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3279,6 +3279,7 @@ Stmt_Tree submodule_stmt(TT_Stream &ts) {
     seq(rule_tag, TOK(KW_SUBMODULE), TOK(TK_PARENL),
         name(), opt(h_seq(TOK(TK_COLON), name())),
         TOK(TK_PARENR),
+        name(),  // submodule-name
         eol());
   EVAL(SG_SUBMODULE_STMT, p(ts));
 }
-- 
2.43.0


From 417ff3ebb72533beb729d0688a09878af97c5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 37/52] fix: an opening parenthesis without its closing one is
 no match instead of a run past the end of the statement

---
 src/flpr/parse_stmt.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index fdc37f4..e821da1 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -58,6 +58,9 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
   int nesting_depth = 1;
   Stmt_Tree root{rule_tag};
   while (nesting_depth > 0) {
+    if (Syntax_Tags::BAD == ts.peek() && nesting_depth > 1) {
+      FAIL; // an opening delimiter without its closing one
+    }
     if (Syntax_Tags::TK_PARENL == ts.peek()) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_BRACKETL == ts.peek()) {
@@ -107,6 +110,7 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
 
+  INIT_FAIL;
   Stmt_Tree root{Syntax_Tags::HOIST};
   root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   while (nesting_depth > 0) {
@@ -114,8 +118,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      FAIL; // no matching PARENR
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From 745b323d650befe02c3ec56da1169fe931712fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 38/52] fix: is_name on the tag of a client extension looks up
 the extension

---
 src/flpr/Syntax_Tags.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Syntax_Tags.hh b/src/flpr/Syntax_Tags.hh
index a232529..a05ac62 100644
--- a/src/flpr/Syntax_Tags.hh
+++ b/src/flpr/Syntax_Tags.hh
@@ -34,8 +34,8 @@ public:
   static std::string label(int const syntag);
   static constexpr int pg_begin_tag() { return PG_000_LB + 1; }
   static constexpr int pg_end_tag() { return PG_ZZZ_UB; }
-  static constexpr bool is_name(int const tag) {
-    return tag == TK_NAME || types_[tag] == 4;
+  static bool is_name(int const tag) {
+    return tag == TK_NAME || type(tag) == 4;
   }
   static int type(int const syntag);
 
-- 
2.43.0


From c104bfd11c01d70c827beb3fc202780af4a263b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 39/52] fix: a real constant at the end of a line does not
 change how the next line is scanned

---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..60d135d 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -260,6 +260,7 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0); yy_push_state(kind_parse); }
   .|\n           { curr_line_pos -= yyleng;
                    yyless(0);  BEGIN(INITIAL); }
+  <<EOF>>        { BEGIN(INITIAL); yyterminate(); }
 }
 
   /* R714: real-literal-constant (7.4.3.2) */
-- 
2.43.0


From b4c57dacb82b89ef1f9bb03f074472c159786763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 40/52] fix: a period that belongs to an operator made of
 letters does not make the number before it a real

---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 60d135d..b39485c 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -274,6 +274,14 @@ write { return Syntax_Tags::KW_WRITE; }
   /* R708: int-literal-constant (7.4.3.1) */
 {DIGIT}+(_{KIND})?   { return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
 
+  /* digits followed by an operator made of letters (1.eq.j, 2.foo.k): the
+     period belongs to the operator, not to the number. */
+{DIGIT}+\.[a-z]+\.   { int n = 0;
+                       while (yytext[n] != '.') ++n;
+                       curr_line_pos -= yyleng - n;
+                       yyless(n);
+                       return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+
   /* These must be last to allow keyword and operator completion */
 
   /* Defined operator */
-- 
2.43.0


From dbd2cfaa2c5f3880d3977ee784c36bf9bcc3b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 41/52] fix: a tree can be made from a const value

---
 src/flpr/Tree.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..10fe65f 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -590,7 +590,7 @@ public:
 
   constexpr explicit Tree(value const &src)
       : root_list_p_{std::make_unique<node_list>()} {
-    root_list_p_->push_front(node(src));
+    root_list_p_->emplace_front(src);
     root_list_p_->front().link(root_list_p_->begin());
   }
 
-- 
2.43.0


From 082f846c950e08676bc1f5806163dab9015889f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 42/52] fix: the only region of a procedure is an active one

---
 src/flpr/Range_Partition.hh | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..37494b2 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -167,7 +167,11 @@ private:
     std::optional<Chg_Trkr> chg_trkr;
 
   public:
-    constexpr bool active() const noexcept { return pred != succ; }
+    /* an inactive partition refers to itself. Note that pred == succ is not
+       enough: that is also what the only active partition looks like. */
+    constexpr bool active(const_index my_idx) const noexcept {
+      return succ != my_idx;
+    }
     constexpr void deactivate(const_index my_idx) noexcept {
       pred = my_idx;
       succ = my_idx;
@@ -185,7 +189,7 @@ private:
     return /* idx >= 0 && */ idx < end_idx_ && parts_[idx].okay();
   }
   constexpr bool active_idx_(const_index idx) const noexcept {
-    return valid_idx_(idx) && parts_[idx].active();
+    return valid_idx_(idx) && parts_[idx].active(idx);
   }
   constexpr index_type first_active_idx_() const noexcept {
     return parts_.back().succ;
@@ -197,11 +201,11 @@ private:
     return parts_.back().pred == end_idx_;
   }
   constexpr index_type next_active_idx_(index_type idx) const noexcept {
-    if (parts_[idx].active())
+    if (parts_[idx].active(idx))
       return parts_[idx].succ;
     do {
       idx += 1;
-    } while (valid_idx_(idx) && !parts_[idx].active());
+    } while (valid_idx_(idx) && !parts_[idx].active(idx));
     /* note that this could be end_idx_ */
     return idx;
   }
@@ -221,7 +225,7 @@ private:
   }
 
   constexpr void activate_(const_index idx) noexcept {
-    if (!parts_[idx].active()) {
+    if (!parts_[idx].active(idx)) {
       const_index succ = next_active_idx_(idx);
       const_index pred = parts_[succ].pred;
       parts_[pred].succ = idx;
@@ -232,12 +236,12 @@ private:
     }
   }
   constexpr void deactivate_(const_index idx) noexcept {
-    if (parts_[idx].active()) {
+    if (parts_[idx].active(idx)) {
       const_index succ = parts_[idx].succ;
       const_index pred = parts_[idx].pred;
       parts_[pred].succ = succ;
       parts_[succ].pred = pred;
-      parts_[idx].deactivate_(idx);
+      parts_[idx].deactivate(idx);
     }
   }
 };
@@ -255,7 +259,7 @@ bool Range_Partition<Range, Chg_Trkr>::validate() const {
   for (index_type i = 0; i < end_idx_; ++i) {
     assert(valid_idx_(i));
     if ((parts_[i].succ == i) && (parts_[i].pred == i)) {
-      assert(!parts_[i].active());
+      assert(!parts_[i].active(i));
     } else {
       assert(active_idx_(i));
       if (first_idx == my_bad) {
-- 
2.43.0


From 8adbcc45708c8beff597baad22e3d24fbddd1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 43/52] fix: looking at an empty region of a const procedure

---
 src/flpr/Range_Partition.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 37494b2..7587ecf 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -70,11 +70,11 @@ public:
   }
   constexpr const_iterator begin(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    return parts_[active_at_(idx)].begin;
   }
   constexpr const_iterator cbegin(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    return parts_[active_at_(idx)].begin;
   }
   constexpr iterator end(const_index idx) noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
@@ -83,11 +83,11 @@ public:
   }
   constexpr const_iterator end(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return parts_[next_active_idx_(idx)].begin;
   }
   constexpr const_iterator cend(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return parts_[next_active_idx_(idx)].begin;
   }
 
   constexpr void set_tracker(const_index idx, Chg_Trkr const &trkr) {
@@ -210,6 +210,12 @@ private:
     return idx;
   }
 
+  /* the partition that holds the position of idx: an inactive one is empty, and
+     located where the next active one begins (this could be end_idx_) */
+  constexpr index_type active_at_(index_type idx) const noexcept {
+    return parts_[idx].active(idx) ? idx : next_active_idx_(idx);
+  }
+
   constexpr Partition &pred_(const_index idx) noexcept {
     return parts_[parts_[idx].pred];
   }
-- 
2.43.0


From 9e1ea3087028007aa4a5e5454d78fe430d163a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 44/52] fix: inserting before a region moves that region, and
 the empty ones right before it

---
 src/flpr/Range_Partition.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 7587ecf..07ce349 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -138,10 +138,15 @@ public:
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
+    iterator old_begin = parts_[idx].begin;
     if (insert_pos == old_begin) {
       /* inserting before the body changes our begin, and we tell the tracker
-         for the previous partition that their end has changed. */
+         for the previous partition that their end has changed. The empty
+         partitions right before this one begin (and end) there, too. */
+      for (index_type i = parts_[idx].pred;
+           i != end_idx_ && parts_[i].begin == old_begin; i = parts_[i].pred) {
+        parts_[i].begin = new_begin;
+      }
       parts_[idx].begin = new_begin;
       if (has_tracker(idx))
         parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
-- 
2.43.0


From 21c242d8374fb29adec3ec347c55235f2eee613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 45/52] fix: emplace_stmt tells the regions what was inserted
 where, not the other way round

---
 src/flpr/Procedure.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..3e3c0a6 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
-- 
2.43.0


From 03f698f28972fcb125f822df35a1058066517072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 46/52] fix: the name of a main program that got its
 program-stmt by a rename

---
 src/flpr/Procedure.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 3e3c0a6..8e2bd15 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,7 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  Stmt_Const_Cursor s = cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -368,7 +368,7 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 414d62f2bdf3d273fc61fa64a69c6400354a51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 47/52] fix: a program that cannot be parsed has no tree to
 link statements to

---
 src/flpr/Parsed_File.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..a3b7065 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -181,6 +181,7 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
     if (!result.match) {
       std::cerr << "\tparsing FAILED" << std::endl;
       bad_state_ = true;
+      return;
     }
     parse_tree_.swap(result.parse_tree);
     link_stmts_recurse_(*parse_tree_);
-- 
2.43.0


From 5e56250a0d7eb333f3d69f8ac8549be3bdbdc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 48/52] fix: a construct that is cut short is reported, not
 looked for past the last statement

---
 src/flpr/Prgm_Parsers_impl.hh  |  3 ++-
 src/flpr/Prgm_Parsers_utils.hh | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..c026112 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -165,7 +165,8 @@ PPARSER(executable_construct) {
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
-  if(state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
+  if(!state.ss || state.do_label_stack.is_top(state.ss->label()))
+    return PP_Result{};
   EVAL(PG_EXECUTABLE_CONSTRUCT, p(state));
 }
 
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..de28e18 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,17 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Tell the user where the construct \p syntag could not be continued
+static void report_unrecognized(State &state, int const syntag) {
+  if (state.ss) {
+    std::cerr << "Unrecognized statement\n";
+    state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
+  } else {
+    std::cerr << "Unexpected end of statements while parsing ";
+  }
+  FLPR::Syntax_Tags::print(std::cerr, syntag) << std::endl;
+}
+
 /******************************* COMBINATORS **********************************/
 
 //! Return a result if any of the alternatives match
@@ -267,9 +278,7 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_unrecognized(state, syntag_);
       return PP_Result{};
     }
     if (root)
@@ -323,9 +332,7 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_unrecognized(state, syntag_);
         return PP_Result{};
       }
       if (root)
@@ -393,6 +400,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -496,6 +505,9 @@ public:
   constexpr Legacy_Do_Construct_Parser() = default;
   PP_Result operator()(State &state) const noexcept {
 
+    if (!state.ss)
+      return PP_Result{};
+
     /****************************** DO-STMT ***********************************/
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
@@ -543,6 +555,9 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (!state.ss)
+      return PP_Result{};
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
-- 
2.43.0


From 87e8af70d2b15341cedc447b4b27b382959e0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 49/52] fix: a construct that fails to parse gives its
 statements and its label back

---
 src/flpr/Prgm_Parsers_utils.hh | 40 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index de28e18..5e2403e 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -276,9 +276,12 @@ public:
     auto fold = [&attach_if](auto... as) constexpr {
       return FLPR::details_::and_fold(attach_if, as...);
     };
+    auto const start{state.ss};
     bool const match = std::apply(fold, parsers_);
     if (!match) {
       report_unrecognized(state, syntag_);
+      // The statements of a partial match are not in any tree: give them back
+      state.ss = start;
       return PP_Result{};
     }
     if (root)
@@ -329,10 +332,13 @@ public:
       return FLPR::details_::and_fold(attach_if, as...);
     };
 
+    auto const start{state.ss};
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
         report_unrecognized(state, syntag_);
+        // The statements of a partial match are not in any tree: give them back
+        state.ss = start;
         return PP_Result{};
       }
       if (root)
@@ -509,6 +515,7 @@ public:
       return PP_Result{};
 
     /****************************** DO-STMT ***********************************/
+    auto const start{state.ss};
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -521,9 +528,18 @@ public:
     int do_stmt_tag = (*do_stmt_tree)->syntag;
 
     /* if this is a label-do-stmt, add the label to the stack */
-    const int label = FLPR::Stmt::get_label_do_label(do_stmt_tree);
-    if (label > 0)
-      state.do_label_stack.push(label);
+    const int do_label = FLPR::Stmt::get_label_do_label(do_stmt_tree);
+    if (do_label > 0)
+      state.do_label_stack.push(do_label);
+
+    /* without a terminating statement, this is no do-construct: give the
+       statements back, and stop looking for the label */
+    auto const no_match = [&state, &start, do_label]() {
+      state.ss = start;
+      if (do_label > 0)
+        state.do_label_stack.pop();
+      return PP_Result{};
+    };
 
     /* attach the Stmt_Tree to the LL_Stmt */
     FLPR::LL_STMT_SEQ::iterator do_stmt_it{state.ss};
@@ -556,23 +572,26 @@ public:
     /*********************** TERMINATING STATEMENT ****************************/
 
     if (!state.ss)
-      return PP_Result{};
+      return no_match();
 
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label to look for, or without a label on the statement, the
+       only end-do this can be is a end-do-statment */
+    if (do_label <= 0 || !state.ss->has_label()) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
-        return PP_Result{}; // wasn't end-do-stmt, so match fails
+        return no_match(); // wasn't end-do-stmt, so match fails
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
       end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
       state.ss.advance();
+      if (do_label > 0)
+        state.do_label_stack.pop();
     } else {
       /* So, we've got a label. Let NL be the number of instances of this
          label on the stack. This means, evaluated in order:
@@ -590,7 +609,8 @@ public:
       int const label{state.ss->label()};
       int const level{state.do_label_stack.level(label)};
 
-      assert(level > -1);
+      if (level < 0)
+        return no_match(); // this is not the label that the do-stmt asks for
 
       if (level > 0) {
         /* this is a do-term-shared-stmt, and the first N-1 label-do-stmts that
@@ -598,7 +618,7 @@ public:
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -631,7 +651,7 @@ public:
           end_stmt_pg_tag = TAG(HOIST);
         }
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 8c87317c31df7574873b86cb14c2ddec829f5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 50/52] fix: the cases of a select-rank-construct can repeat
 its name

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index e821da1..ed308e6 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3179,6 +3179,7 @@ Stmt_Tree select_rank_case_stmt(TT_Stream &ts) {
         h_alts(TOK(KW_DEFAULT),
                h_parens(TOK(TK_ASTERISK)),
                h_parens(rule(int_constant_expr))),
+        opt(name()), // select-construct-name
         eol());
   EVAL(SG_SELECT_RANK_CASE_STMT, p(ts));
 }
-- 
2.43.0


From e2fac3b56cf8a2d2f28480e8fa8d84db7817868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 51/52] fix: rank and format statements among executable ones
 are no macros

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index ed308e6..55d1dce 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2453,6 +2453,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_RANK))),
+        neg(peek(TAG(KW_FORMAT))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From 1314a8f9d58b10c6de52d23988c8cc86e688fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 52/52] fix: splitting a compound line drops the tree of the
 statement before the split

---
 src/flpr/Logical_File.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index b1b2bf6..3f17c7a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -322,8 +322,10 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
   assert(!ll_seq_new->stmts().empty());
   assert(ll_seq_orig->stmts().size() + ll_seq_new->stmts().size() == num_stmts);
 
-  /* the token that ended prev_stmt is gone, and it may be alone now */
+  /* the token that ended prev_stmt is gone, and it may be alone now. Its tree
+     refers to that token, too */
   prev_stmt->assign_range(ll_seq_orig->stmts().back());
+  prev_stmt->drop_stmt_tree();
   if (ll_seq_orig->stmts().size() == 1)
     prev_stmt->set_compound(0);
 
-- 
2.43.0

