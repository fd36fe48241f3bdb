From e05af791e77f7c90053be3ff3c878c9b617bca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 01/41] fix: keep the sign of a rational constant built with a
 negative denominator

fix_den flips the sign of a negative denominator, but fix_num did not flip
the numerator with it, so 1/(-2) was 1/2 and pow(-2,-1) was 1/2.
---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..e15e279 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return d<0 ? fix_num(-n,-d) : (n==0 ? n : n / gcd(abs(n),abs(d)));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From 3390b607a30e9a028ecbb5ad838625889746ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 02/41] fix: do not square the base once too often in pow of a
 rational constant

The last step of the recursion computed x*x only to raise it to the power 0.
That product may overflow although the result is representable; e.g.
pow(2^32,1) threw 'Cannot compute 0^0', and comparing 10^10 with anything
overflowed a signed integer.
---
 src/core/ekat_rational_constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index e15e279..b6def66 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -213,6 +213,9 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    // Do not compute (and possibly overflow) a x*x that is not part of the result
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From 9ee2e0636cdcd44ea978dfadd13c9486ff61cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 03/41] fix: print negative and large rationals correctly in
 string_repr

ndigits of a negative number was always 1, so -12 printed as -2, and values
beyond the range of int were truncated before their digits were taken.
---
 src/core/ekat_rational_constant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index b6def66..ad2b42e 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -81,7 +81,8 @@ struct RationalConstant {
   {
     std::array<char,N> s = {'\0'};
     int pos = 0;
-    int nd_num = ndigits(num);
+    iType absnum = num<0 ? -num : num;
+    int nd_num = ndigits(absnum);
     int nd_den = ndigits(den);
 
     assert (N>(nd_num+nd_den+(num<0 ? 1 : 0)));
@@ -89,7 +90,6 @@ struct RationalConstant {
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -142,8 +142,8 @@ private:
     return n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From ccedb7cf27813d232e8cdc24901a8372d004e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 04/41] fix: copy the whole exponent in
 ScalingFactor::string_repr

The loop copying the exponent ran to the length of the base, so 2^10 printed
as 2^1. The size check also left out the parentheses of a base with exponent 1.
---
 src/core/ekat_scaling_factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..32bc8f9 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -56,7 +56,7 @@ struct ScalingFactor {
     auto e_one = exp==RationalConstant::one();
 
     // If we have denominators or are negative, add parentheses, for clarity
-    assert ( sz1 + (e_one ? 0 : sz2+1 + (b_den_or_neg ? 2 : 0) + (e_den_or_neg ? 2 : 0)) < N );
+    assert ( sz1 + (b_den_or_neg ? 2 : 0) + (e_one ? 0 : sz2+1 + (e_den_or_neg ? 2 : 0)) < N );
 
     std::array<char,N> out = {'\0'};
     int pos = 0;
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
-- 
2.43.0


From 06b18af67792ef887b4d4904afcb7cc80e78b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 05/41] fix: parenthesize a fractional or negative base in
 ScalingFactor::to_string

(2/3)^2 printed as 2/3^2 and (-2)^2 as -2^2, which denote other values.
---
 src/core/ekat_scaling_factor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 32bc8f9..6d342dd 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -87,6 +87,10 @@ struct ScalingFactor {
   inline std::string to_string(const Format fmt = Format::Rat) const {
     std::string s = base.to_string(fmt);
     if (exp!=RationalConstant::one()) {
+      // The power binds stronger than the fraction bar and the sign of the base
+      if (base.num<0 or (base.den!=1 and fmt==Format::Rat)) {
+        s = '(' + s + ')';
+      }
       s +=  '^';
       if (exp.den!=1 and fmt==Format::Rat) {
         s+= '(';
-- 
2.43.0


From b07472ced23b8bcbae760f09200eb519c95335d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 06/41] fix: do not read past the end of the string in trim

When trimming the null character the loop over the leading characters matched
the string's terminator and went on beyond it.
---
 src/core/ekat_string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..579fc11 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -40,11 +40,11 @@ std::string trim (const std::string& s, const char c) {
   if (s=="") {
     return s;
   }
+  int size = s.size();
   int nl = 0;
-  while (s[nl] == c) {
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
   while (nt<size && s[size-nt-1] == c) {
     ++nt;
-- 
2.43.0


From 1148ed705c004e63f91b470a1eec64f5e3f32460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 07/41] fix: reject malformed nested lists that were accepted

An entry right after a nested list ('[[a]b]') and text after the outermost list
('[a],[b]') passed the format check, and parse_nested_list then silently dropped
or misread part of the string.
---
 src/core/ekat_string_utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 579fc11..8642336 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -172,6 +172,14 @@ bool valid_nested_list_format (const std::string& str)
       return false;
     }
 
+    // A list must be followed by ',' or ']', not by a name
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry after " << close << ". Did you forget a comma?\n";
+#endif
+      return false;
+    }
+
     // Keep track of nesting level
     if (str[pos]==open) {
       ++num_open;
@@ -179,8 +187,8 @@ bool valid_nested_list_format (const std::string& str)
       --num_open;
     }
 
-    // Cannot close more than you open
-    if (num_open<0) {
+    // Cannot close more than you open, nor close the outermost list before the end
+    if (num_open<0 || (num_open==0 && pos!=str.size()-1)) {
 #ifdef DEBUG_OUTPUT
       std::cout << "Input string '" << str << "' open/closed brackets don't balance.\n";
 #endif
-- 
2.43.0


From b3e31ccb2722666ff642c07747d5e8b2ffc18150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 08/41] fix: let ParameterList assignment replace the previous
 contents, also when source and target are nested

---
 src/core/ekat_parameter_list.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..1d92f59 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -2,6 +2,7 @@
 #include "ekat_std_utils.hpp"
 
 #include <ios>
+#include <utility>
 
 namespace ekat {
 
@@ -14,21 +15,18 @@ ParameterList (const ParameterList& src)
   }
 
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    m_sublists.emplace(name,sl);
   }
 }
 
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
-
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
+    // Copy first, since src may be (part of) one of our sublists, or contain us
+    ParameterList copy(src);
+    std::swap(m_name,copy.m_name);
+    m_params.swap(copy.m_params);
+    m_sublists.swap(copy.m_sublists);
   }
   return *this;
 }
@@ -73,7 +71,14 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    auto it = m_sublists.find(name);
+    if (it==m_sublists.end()) {
+      m_sublists.emplace(name,sl);
+    } else {
+      // Sublists present in both lists are merged
+      it->second.rename(sl.name());
+      it->second.import(sl);
+    }
   }
   for (const auto& [name,p] : src.m_params) {
     m_params[name] = p;
-- 
2.43.0


From a83d0a45c2f879bfd496ea210a40c4ff7f63daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 09/41] fix: keep every delimited occurrence of the atomic
 string in gather_tokens

---
 src/core/ekat_string_utils.cpp | 86 +++++++++-------------------------
 1 file changed, 23 insertions(+), 63 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 8642336..e3db93a 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -370,71 +370,31 @@ std::list<std::string> gather_tokens(const std::string& s,
     delim_str.append(1, delim);
   }
 
-  if (atomic!="") {
-    auto pos = s.find(atomic);
-    if (pos==std::string::npos) {
-      // The atomic string wasn't found.
-      return gather_tokens(s,delimiters,"");
-    }
-    // The atomic string was found. Add it as a token, then remove if from
-    // the input string, and run again on what's left.
-    // But first, we need to check that the string is delimited left and right
-    // by a delimiter (or string boundaries), otherwise it doesn't count.
-    auto slen = s.size();
-    auto alen = atomic.size();
-
-    // These lambda implement exactly what you think they do,
-    // but are more verbose than the corresponding checks when used.
-    auto at_s_start = [&] () -> bool {
-      return pos==0;
-    };
-    auto at_s_end = [&] () -> bool {
-      return (pos+alen)==slen;
-    };
-    auto delim_before = [&] () -> bool {
-      return s.find_first_of(delim_str,pos-1)==(pos-1);
-    };
-    auto delim_after = [&] () -> bool {
-      return s.find_first_of(delim_str,pos+alen)==(pos+alen);
-    };
-
-    if ( !at_s_start() && !delim_before() ) {
-      // The atomic string is not at the start of s, but it is
-      // not preceeded by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    } else if ( !at_s_end() && !delim_after() ) {
-      // The atomic string is not at the end of s, but it is
-      // not followed by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    }
-
-    // If we didn't hit any of the previous return statements, then the atomic
-    // substring was found, and it is a sub-token.
-    all_tokens.push_back(atomic);
-
-    std::string s_mod(s);
-    auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
-    s_mod.erase(erase_begin,erase_len);
-
-    // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-    all_tokens.splice(all_tokens.end(),gather_tokens(s_mod,delimiters,atomic));
-    return all_tokens;
-  }
+  const auto slen = s.size();
+  const auto alen = atomic.size();
+  auto is_delim = [&] (const std::size_t i) -> bool {
+    return delim_str.find(s[i])!=std::string::npos;
+  };
+  // Whether atomic is found at pos, delimited left and right by
+  // a delimiter (or string boundaries), otherwise it doesn't count.
+  auto atomic_at = [&] (const std::size_t pos) -> bool {
+    return alen>0 && s.compare(pos,alen,atomic)==0 &&
+           (pos==0 || is_delim(pos-1)) &&
+           (pos+alen==slen || is_delim(pos+alen));
+  };
 
-  std::size_t prev = 0, pos;
-  std::stringstream sstr(s);
-  while ((pos = s.find_first_of(delim_str, prev)) != std::string::npos)
-  {
-    if (pos > prev) {
-      all_tokens.push_back(s.substr(prev, pos-prev));
+  std::size_t pos = 0;
+  while (pos<slen) {
+    if (atomic_at(pos)) {
+      all_tokens.push_back(atomic);
+      pos += alen;
+    } else if (is_delim(pos)) {
+      ++pos;
+    } else {
+      auto end = s.find_first_of(delim_str,pos);
+      all_tokens.push_back(s.substr(pos,end-pos));
+      pos = end==std::string::npos ? slen : end;
     }
-    prev = pos+1;
-  }
-  if (prev < s.length()) {
-    all_tokens.push_back(s.substr(prev, std::string::npos));
   }
 
   return all_tokens;
-- 
2.43.0


From a6c9cd7b7a0e26b3f80adecba3a14f5d539f034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 10/41] fix: use sets of tokens in the union of
 jaccard_similarity

---
 src/core/ekat_string_utils.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index e3db93a..3f32d20 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -428,9 +428,6 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
     // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
@@ -447,8 +444,10 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   // The Jaccard index is the ratio of the size of the intersection to that
   // of the union.
   double int_size = static_cast<double>(s_intersection.size());
-  double un_size = static_cast<double>(s1_tokens.size() + s2_tokens.size() - int_size);
-  return int_size / un_size;
+  double un_size = static_cast<double>(s1_set.size() + s2_set.size()) - int_size;
+
+  // If neither string has any token, the two sets are equal
+  return un_size>0 ? int_size / un_size : 1.0;
 }
 
 // ===================== Case Insensitive String ================== //
-- 
2.43.0


From 25904e1529d4686c0e6be0b931b43d25a0e2410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 11/41] fix: do not throw on YAML scalars that look like
 integers but are not (repeated minus, out of range)

---
 src/parser/ekat_yaml.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..1c76322 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -7,6 +7,7 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <stdexcept>
 
 namespace ekat {
 
@@ -28,12 +29,17 @@ bool is_type<bool> (const std::string& s) {
 }
 template<>
 bool is_type<int> (const std::string& s) {
-  if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
-  }
+  const std::size_t start = s.size()>0 and s[0]=='-' ? 1 : 0;
+  if (start==s.size()) return false;
+  if (s.find_first_not_of("0123456789",start)!=std::string::npos) return false;
 
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // All digits, but the value may still not fit
+  try {
+    std::stoi(s);
+  } catch (const std::out_of_range&) {
+    return false;
+  }
+  return true;
 }
 
 template<>
-- 
2.43.0


From 591fcfe37df98d90f25f2fec3941e5bac862a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 12/41] fix: read YAML sequences of booleans in any letter case

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 1c76322..454cd60 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -65,7 +65,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From 0434686f315b52d9d5d91c9a5ab8478b4767171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 13/41] fix: accept denormal numbers in YAML input

---
 src/parser/ekat_yaml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 454cd60..212fdc1 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -7,6 +7,7 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <cstdlib>
 #include <stdexcept>
 
 namespace ekat {
@@ -73,7 +74,8 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  // Unlike std::stod, this does not throw on denormal numbers
+  return std::strtod(s.c_str(),nullptr);
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From 7f62c91bed54fa46337047726634f435ea1bc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 14/41] fix: do not clip the exponent of doubles written to
 YAML

---
 src/parser/ekat_yaml.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 212fdc1..e588bb6 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -7,6 +7,7 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <algorithm>
 #include <cstdlib>
 #include <stdexcept>
 
@@ -261,19 +262,28 @@ template<>
 std::string write_param<double> (const double& d) {
   std::stringstream ss;
   ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
+  auto s = ss.str();
+  auto start = s.find('.');
+  if (start==std::string::npos) {
+    // Not a finite number
+    return s;
+  }
+
+  // Leave the exponent (if any) alone
+  std::string exponent;
+  auto epos = s.find('e');
+  if (epos!=std::string::npos) {
+    exponent = s.substr(epos);
+    s.erase(epos);
   }
 
   // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
-  auto s = ss.str();
-  auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  if (s.size()==start+1) {
+    s += '0';
   }
-  return s.substr(0,start+2+last_nnz+1);
+  auto last_nnz = s.find_last_not_of('0');
+  s.erase(std::max(last_nnz+1,start+2));
+  return s + exponent;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From 6323c5e405eb3709797e73eb75d1916f59d76d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 15/41] fix: keep strings that look like other types, and
 multi-line strings, when writing YAML

---
 src/parser/ekat_yaml.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index e588bb6..bfe3666 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -7,6 +7,8 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <cctype>
+#include <type_traits>
 #include <algorithm>
 #include <cstdlib>
 #include <stdexcept>
@@ -90,6 +92,12 @@ bool is_seq (const YAML::Node& node) {
   int n = node.size();
   for (int i=0; i<n; ++i) {
     std::string str = node[i].as<std::string>();
+    const auto& tag = node[i].Tag();
+    // As for scalars, quoted entries are strings
+    const bool is_str = tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str";
+    if (is_str and not std::is_same<T,std::string>::value) {
+      return false;
+    }
     if (not is_type<T>(str)) {
       return false;
     }
@@ -290,6 +298,18 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Literal style only preserves texts that end with exactly one newline,
+// and whose first line is neither empty nor indented
+bool is_literal (const std::string& s) {
+  return s.size()>1 and s.back()=='\n' and s[s.size()-2]!='\n'
+         and std::isgraph(static_cast<unsigned char>(s[0]));
+}
+
+// Strings that look like another type must be quoted, or they would not be parsed as strings
+bool needs_quotes (const std::string& s) {
+  return is_type<bool>(s) or is_type<int>(s) or is_type<double>(s);
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -305,8 +325,12 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
+      if (needs_quotes(v))
+        out << YAML::DoubleQuoted;
+      else if (is_literal(v))
         out << YAML::Literal; // Use Literal for multiline
+      else if (v.find('\n') != std::string::npos)
+        out << YAML::DoubleQuoted;
       out << v;
     } else {
       // No match
@@ -340,6 +364,9 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     // Note: all but one of the vectors above will be empty, so write will do nothing for all but one
     auto write = [&](auto vec) {
       for (auto e : vec) {
+        if constexpr (std::is_same<decltype(e),std::string>::value) {
+          if (needs_quotes(e)) out << YAML::DoubleQuoted;
+        }
         out << write_param(e);
       }
     };
-- 
2.43.0


From a037fb7e6443f708ea8a3567e18f0e46eed6a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 16/41] fix: keep ranks that should not log silent when log
 levels are raised

---
 src/logging/ekat_logger.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..65944a3 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -141,7 +141,13 @@ public:
    : LoggerBase(log_name)
   {
     // make the console sink; default console level = log level
-    csink = std::make_shared<spdlog::sinks::stdout_color_sink_mt>();
+    // Note: ranks that should not log get null sinks, so that they stay
+    //       silent even if the level of the logger/sinks is raised later.
+    if (MpiOutputPolicy::should_log(comm)) {
+      csink = std::make_shared<spdlog::sinks::stdout_color_sink_mt>();
+    } else {
+      csink = std::make_shared<spdlog::sinks::null_sink_mt>();
+    }
 
     // Retrieve log file name (if a file is generated at all) even if
     // this rank should not log, since we might still need to know the
@@ -180,8 +186,15 @@ public:
          Logger<LogFilePolicy,MOP>& src) :
     LoggerBase(log_name)
   {
-    csink = src.get_console_sink();
-    fsink = src.get_file_sink();
+    if (MpiOutputPolicy::should_log(comm)) {
+      csink = src.get_console_sink();
+      fsink = src.get_file_sink();
+    } else {
+      // This rank must stay silent, even if src does not
+      csink = std::make_shared<spdlog::sinks::null_sink_mt>();
+      fsink = LogNoFile::get_file_sink(src.get_logfile_name());
+      fsink->set_level(LogLevel::off);
+    }
     this->sinks().push_back(csink);
     this->sinks().push_back(fsink);
 
-- 
2.43.0


From 0eff9faa0248f257030cce41999a0fc68192a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 17/41] fix: report the name of the shared file in loggers that
 share sinks

---
 src/logging/ekat_logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 65944a3..6c93810 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -186,6 +186,8 @@ public:
          Logger<LogFilePolicy,MOP>& src) :
     LoggerBase(log_name)
   {
+    logfile_name = src.get_logfile_name();
+
     if (MpiOutputPolicy::should_log(comm)) {
       csink = src.get_console_sink();
       fsink = src.get_file_sink();
-- 
2.43.0


From 2e30f822c95cf60dd82efdb5fe857c24688fcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 18/41] fix: include what ViewBroadcast uses and check the
 upper bound of its extent index

---
 src/kokkos/ekat_view_broadcast.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..b542ed4 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -2,8 +2,12 @@
 #define EKAT_BROADCAST_VIEW_HPP
 
 #include "ekat_kokkos_meta.hpp"
+#include "ekat_kernel_assert.hpp"
 #include "ekat_assert.hpp"
 
+#include <type_traits>
+#include <vector>
+
 namespace ekat {
 
 /*
@@ -83,7 +87,7 @@ public:
 
   KOKKOS_INLINE_FUNCTION
   int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(m_view_impl.rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From dbd0a30ef842409d6ab2ab24d02c7958e3d70b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 19/41] fix: use the strides of the source view in
 ViewBroadcast

---
 src/kokkos/ekat_view_broadcast.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index b542ed4..84354e5 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -3,6 +3,7 @@
 
 #include "ekat_kokkos_meta.hpp"
 #include "ekat_kernel_assert.hpp"
+#include "ekat_std_type_traits.hpp"
 #include "ekat_assert.hpp"
 
 #include <type_traits>
@@ -63,18 +64,21 @@ public:
         "[ViewBroadcast] Badly sized extents vector.\n");
 
     // Init all dims as "ignored", then set up the ones actually picked
-    typename ToView::traits::array_layout impl_layout;
+    // Note: the source view can have any strides, so keep track of them.
+    Kokkos::LayoutStride impl_layout;
     int ifrom = 0;
     for (int i=0; i<to_rank; ++i) {
       if (extents[i]<=0) {
         EKAT_REQUIRE_MSG (ifrom<from_rank,
             "Error! Too many missing extents in input vector.\n");
         impl_layout.dimension[i] = from_v.extent_int(ifrom);
+        impl_layout.stride[i] = from_v.stride(ifrom);
         m_shape[i] = from_v.extent_int(ifrom);
         m_coeff[i] = 1;
         ++ifrom;
       } else {
         impl_layout.dimension[i] = 1;
+        impl_layout.stride[i] = 1;
         m_shape[i] = extents[i];
         m_coeff[i] = 0;
       }
@@ -82,7 +86,7 @@ public:
     EKAT_REQUIRE_MSG (ifrom==from_rank,
         "Error! Too many positive extents in input vector.\n");
 
-    m_view_impl = view_type(from_v.data(),impl_layout);
+    m_view_impl = impl_view_type(from_v.data(),impl_layout);
   }
 
   KOKKOS_INLINE_FUNCTION
@@ -166,7 +170,13 @@ public:
 
 protected:
 
- view_type  m_view_impl;
+ using impl_view_type =
+   Unmanaged<Kokkos::View<typename DataND<typename ToView::traits::value_type,ToView::rank()>::type,
+                          Kokkos::LayoutStride,
+                          typename ToView::traits::device_type,
+                          typename ToView::traits::memory_traits>>;
+
+ impl_view_type  m_view_impl;
 
  int m_shape[8];
  int m_coeff[8];
-- 
2.43.0


From b835d45f795e2240dfd91f3c925b888d57d3edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 20/41] fix: check the upper limit of the range in the rank-1
 multi-slice subview

---
 src/kokkos/ekat_subview_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_subview_utils.hpp b/src/kokkos/ekat_subview_utils.hpp
index ea13e34..ded3508 100644
--- a/src/kokkos/ekat_subview_utils.hpp
+++ b/src/kokkos/ekat_subview_utils.hpp
@@ -324,7 +324,8 @@ subview(const ViewLR<ST*, Props...>& v,
         const int idim = 0) {
   assert(v.data() != nullptr);
   assert(idim == 0);
-  assert(kp0.first >= 0 && kp0.first < kp0.second);
+  assert(kp0.first >= 0 && kp0.first < kp0.second
+         && kp0.second <= v.extent_int(0));
   return Unmanaged<ViewLS<ST*,Props...>>(Kokkos::subview(v, kp0));
 }
 
-- 
2.43.0


From bb74b1830e79278a09a8392bafbcb806a77e1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 21/41] fix: WorkspaceManager::report compiles (its Data has no
 default constructor)

---
 src/kokkos/ekat_workspace_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..5ee722b 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -106,10 +106,10 @@ void WorkspaceManager<T, D>::report() const
         }
         std::string sname(name);
         if (ws_usage_map.find(sname) == ws_usage_map.end()) {
-          ws_usage_map[sname] = Data(1, takes, releases);
+          ws_usage_map.emplace(sname, Data(1, takes, releases));
         }
         else {
-          auto& e = ws_usage_map[sname];
+          auto& e = ws_usage_map.at(sname);
           e.used += 1;
           e.takes += takes;
           e.releases += releases;
-- 
2.43.0


From 4d32f7f4431da84a9a4d923aba46da60cb9a0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 22/41] fix: Workspace::release_many_contiguous keeps the
 sub-blocks that were free before in the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 5ee722b..8394faa 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -626,6 +626,8 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The last released sub-block is followed by what was free before
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
-- 
2.43.0


From a28eab307da5a6e433c3554744e14a8fdc3ffd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 23/41] fix: Workspace::release_macro_block keeps the
 sub-blocks that were free before in the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 8394faa..e30defe 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -650,19 +650,23 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
+  // The metadata of all but the first sub-block is inside the memory that the
+  // team could use, so no thread may still be using it when it is reset.
+  m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
+    const int slot = m_parent.get_index<S>(space);
+    const int last = slot + n_sub_blocks - 1;
 
 #ifndef NDEBUG
     change_indv_meta<S>(space, "", true);
 #endif
-  });
 
-  // Reset metadata
-  m_team.team_barrier();
-  Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+    // Reset metadata. The last sub-block is followed by what was free before
+    for (int i = slot; i <= last; ++i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
+    }
+    m_parent.set_next_and_get_index<T>(m_parent.get_space_in_slot<T>(m_ws_idx, last), m_next_slot);
+    m_next_slot = slot;
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From 339703c69ee824154331c342fdf05a063edaa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:45 +0000
Subject: [PATCH 24/41] fix: WorkspaceManager::reset_internals resets the next
 free slot in all builds, and the number of used slots in debug builds

---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index e30defe..8b0fbb7 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -158,11 +158,12 @@ template <typename T, typename D>
 void WorkspaceManager<T, D>::reset_internals()
 {
 #ifndef NDEBUG
+  Kokkos::deep_copy(m_num_used, 0);
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From 4eab47ec4e4d81e0e166ef9f86f97ea3988f8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 25/41] fix: Workspace::take_many_and_reset resets the metadata
 of all spaces, and only when no thread uses them

---
 src/kokkos/ekat_workspace_impl.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 8b0fbb7..676713a 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -435,6 +435,8 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
   const Kokkos::Array<const char*, N>& names,
   const view_1d_ptr_array<S, N>& ptrs) const
 {
+  // The metadata of spaces inside a macro block may be in use as bulk data
+  m_team.team_barrier();
 #ifndef NDEBUG
   change_num_used(N - m_parent.m_num_used(m_ws_idx));
 #endif
@@ -444,11 +446,16 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of all spaces, like in reset(): earlier takes and
+  // releases may have left any of them out of order.
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
+#ifndef NDEBUG
+  // The metadata is read below
+  m_team.team_barrier();
+#endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = N;
-- 
2.43.0


From 280dbc5513a274469702f589aa25b6ebeae0ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 26/41] fix: contiguous takes of a Workspace continue with the
 next free sub-block, not with the one after the last taken

---
 src/kokkos/ekat_workspace_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 676713a..11342dd 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -322,7 +322,8 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    // The sub-block after the last one may be in use
+    m_next_slot = m_parent.get_next<S>(*ptrs[N-1]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
@@ -357,7 +358,8 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    // The sub-block after the last one may be in use
+    m_next_slot = m_parent.get_next<T>(m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot + n_sub_blocks - 1));
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From b7d87ad31e630ad44ad4cd8c2dbe2ac273e4c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 27/41] fix: Workspace::print stops at the end of the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 11342dd..ba7c2ec 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -517,13 +517,12 @@ void WorkspaceManager<T, D>::Workspace::print() const
     Kokkos::PerTeam(m_team), [&] () {
       std::stringstream ss;
       ss << m_ws_idx << ":";
-      auto space = m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot);
-      for (int cnt = 0, nmax = m_parent.m_max_used;
-           cnt < nmax;
-           ++cnt) {
+      // The list ends at the first slot that does not exist
+      for (int slot = m_next_slot; slot < m_parent.m_max_used;) {
+        const auto space = m_parent.get_space_in_slot<T>(m_ws_idx, slot);
         ss << " (" << m_parent.get_index<T>(space) << ", "
            << m_parent.get_next<T>(space) << ")";
-        space = m_parent.get_space_in_slot<T>(m_ws_idx, m_parent.get_next<T>(space));
+        slot = m_parent.get_next<T>(space);
       }
       ss << "\n";
       std::cout << ss.str();
-- 
2.43.0


From cb3fca00fce79d685e35ddb1582ad83f0b803096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 28/41] fix: serial Thomas solves use the row strides of their
 LayoutRight views

---
 src/algorithm/ekat_tridiag.hpp | 55 ++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..c559c4d 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -229,23 +229,23 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
@@ -254,16 +254,15 @@ void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int lddl,
+                  const int ldd, const int lddu, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*lddl;
+    auto* const di = d + i*ldd;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +270,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ldd;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +355,9 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  // The rows of a LayoutRight (sub)view need not be adjacent.
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    static_cast<int>(X.stride(0)));
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +375,12 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  // The rows of a LayoutRight (sub)view need not be adjacent.
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    static_cast<int>(dl.stride(0)),
+                    static_cast<int>(d .stride(0)),
+                    static_cast<int>(du.stride(0)),
+                    static_cast<int>(X .stride(0)));
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From d8d8f0c28a9428c053e96309f66711fefc731992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 29/41] fix: view_reduction counts a range inside one pack once

---
 src/algorithm/ekat_reduction_utils.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..bbbc1b5 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -108,6 +108,16 @@ auto view_reduction (const TeamMember& team,
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If the whole range is inside one pack, with garbage on both sides of it,
+    // the first and last pack are the same one.
+    if (pack_loop_begin > pack_loop_end) {
+      const auto temp_input = input(pack_loop_end);
+      for (int j=begin%N; j<end%N; ++j) {
+        result += temp_input[j];
+      }
+      return result;
+    }
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
-- 
2.43.0


From e24d867a072d587af1114d794d5abb7a44f287e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 30/41] fix: compound assignment of a Pack and one of its own
 entries uses the old value of that entry

---
 src/pack/ekat_pack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..03f5b28 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -151,6 +151,7 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
 
 // Implementation detail for generating Pack assignment operators. _p means the
 // input is a Pack; _s means the input is a scalar.
+// NOTE: the scalar is passed by value, since it may be an entry of the pack being modified.
 // NOTE: for volatile overload, you should return void. If not, if/when Kokkos
 //       atomic ops are compiled for Pack, you will see a compiler warning like
 //   warning: implicit dereference will not access object of type ‘volatile ekat::Pack<...>' in statement
@@ -207,7 +208,7 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     std::is_constructible<scalar,S>::value,                 \
     Pack&                                                   \
   >                                                         \
-  operator op (const S& a) {                                \
+  operator op (const S a) {                                 \
     vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
     return *this;                                           \
   }
-- 
2.43.0


From 43dce08b8ee7d8321756c12bd849d59bc14ebcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 31/41] fix: Pack::set with two scalars may be given entries of
 the pack itself

---
 src/pack/ekat_pack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 03f5b28..5200099 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -320,7 +320,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar v_true, const scalar v_false) {
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From 887932f10bf8ee37d171d5ed21ab6a995ed10daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 32/41] fix: Pack::update with beta=0 ignores the old value

---
 src/pack/ekat_pack.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 5200099..3a82465 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -351,6 +351,7 @@ struct Pack {
   // NOTES:
   //  - by default, the update uses alpha=1 and beta=0, which means it's the equivalent of operator=
   //    (or set, for the overloads with a mask).
+  //  - if beta=0, the old value of y is not used (so it's ok if y contains NaN/Inf).
   //  - we return *this, so we can pipe calls: y.update(x,2,1)[2] performs the update and then
   //    extracts the 3rd entry
   template<typename T, typename CoeffT = scalar>
@@ -358,7 +359,7 @@ struct Pack {
   Pack& update (const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     vector_simd
     for (int i=0; i<n; ++i) {
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = beta==0 ? alpha*x[i] : beta*d[i] + alpha*x[i];
     }
     return *this;
   }
@@ -367,7 +368,7 @@ struct Pack {
   KOKKOS_FORCEINLINE_FUNCTION
   Pack& update (const Mask<n>& m, const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     ekat_masked_loop(m,i)
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = beta==0 ? alpha*x[i] : beta*d[i] + alpha*x[i];
     return *this;
   }
 
@@ -377,9 +378,9 @@ struct Pack {
     vector_simd
     for (int i=0; i<n; ++i) {
       if (m[i])
-        d[i] = beta*d[i] + alpha*x_true[i];
+        d[i] = beta==0 ? alpha*x_true[i] : beta*d[i] + alpha*x_true[i];
       else
-        d[i] = beta*d[i] + alpha*x_false[i];
+        d[i] = beta==0 ? alpha*x_false[i] : beta*d[i] + alpha*x_false[i];
     }
     return *this;
   }
-- 
2.43.0


From ff7102c4fcea2d95af311931fcaa64225d3b9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 33/41] fix: index_and_shift always sets the unshifted values,
 and never reads out of bounds

---
 src/pack/ekat_pack_kokkos.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..074841a 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -75,25 +75,20 @@ index (const Array5& a, const IdxPack& i0, const IdxPack& i1, const IdxPack& i2,
 // which becomes
 //   index_and_shift<1>(y1, kpk, y1k, y1k1);
 //   y2(k2) = y1k + y1k1
-// Note: if k1+Shift is OOB, we use ekat::invalid<T>() where T is the array valye type
+// Note: if k1 or k1+Shift is OOB, we use ekat::invalid<T>() where T is the array value type
 template<int Shift, typename Array1, typename IdxPack> KOKKOS_INLINE_FUNCTION
 void
 index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_const_value_type, IdxPack::n>& index, Pack<typename Array1::non_const_value_type, IdxPack::n>& index_shift,
                  typename std::enable_if<Array1::rank == 1>::type* = nullptr) {
-#ifndef NDEBUG
-  // In debug, intialize index_shift to all invalids. This ensures errors will
-  // happen if client tries to use values that fall outside of valid range.
   using scalar_t = typename Array1::non_const_value_type;
-  index_shift = Pack<scalar_t, IdxPack::n>(invalid<scalar_t>());
-#endif
+  const int size = a.size();
+  auto in_range = [=](const int k) { return k>=0 && k<size; };
   vector_simd for (int i = 0; i < IdxPack::n; ++i) {
     const auto i0i = i0[i];
-#ifndef NDEBUG
-    // We don't want to trigger kokkos OOB errors if they are on
-    if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
-#endif
-    index[i]       = a(i0i);
-    index_shift[i] = a(i0i + Shift);
+    // Using invalid ensures errors will happen if client tries to use values
+    // that fall outside of valid range.
+    index[i]       = in_range(i0i)       ? a(i0i)         : invalid<scalar_t>();
+    index_shift[i] = in_range(i0i+Shift) ? a(i0i + Shift) : invalid<scalar_t>();
   }
 }
 
-- 
2.43.0


From 914530fc365b7d72a5c459bb37b6d3f0f7be5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 34/41] fix: scalarize of a LayoutRight subview uses the length
 of the rows of the parent view

---
 src/pack/ekat_pack_kokkos.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 074841a..4452f00 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -195,12 +195,25 @@ struct ScalarizeHelper<Pack<T,N>>
     using ret_t = Unmanaged<Kokkos::View<data_t<DT>, Props...> >;
     constexpr int rank = Kokkos::View<DT, Props...>::rank;
     static_assert (rank<=7, "ScalarizeHelper only supports up to rank-7 views.\n");
+    constexpr bool layout_right =
+      std::is_same<typename ret_t::traits::array_layout,Kokkos::LayoutRight>::value;
+    static_assert (N==1 or rank<=1 or layout_right,
+                   "ScalarizeHelper requires LayoutRight for views of rank 2 or more.\n");
 
     if constexpr (rank==0) {
       return ret_t(pack2scl(vp.data()));
     } else if constexpr (rank==1) {
       return ret_t(pack2scl(vp.data()), vp.extent(0)*N);
     } else if constexpr (rank==2) {
+      if (layout_right && vp.extent(0)>1 && vp.stride(0)!=vp.extent(1)) {
+        // The rows of a subview can be longer than its extent. Create a view
+        // of the full rows first, then pick the columns we need.
+        using value_t = typename ret_t::traits::value_type;
+        using rows_t  = Unmanaged<Kokkos::View<value_t**, Props...> >;
+        rows_t rows(pack2scl(vp.data()), vp.extent(0), vp.stride(0)*N);
+        return ret_t(Kokkos::subview(rows, Kokkos::ALL,
+                                     Kokkos::make_pair(size_t(0),vp.extent(1)*N)));
+      }
       return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1)*N);
     } else if constexpr (rank==3) {
       return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-- 
2.43.0


From a2387a25044bcb7e7119b7bc9998dacbf549f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 35/41] fix: repack honours the strides of its source, and
 rejects views whose scalars are not adjacent

---
 src/pack/ekat_pack_kokkos.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 4452f00..ddb01fc 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -274,6 +274,14 @@ auto repack (const Kokkos::View<DT,Props...>& src)
   EKAT_KERNEL_REQUIRE_MSG (src.extent(packed_dim) % N == 0,
       "Error! Cannot pack input view, as the pack size does not divide the last dimension.\n");
 
+  // The scalars of a pack must be adjacent, and a pack must not span two rows
+  bool packable = N==1 || src.stride(packed_dim)==1;
+  for (int i=0; i<rank-1; ++i) {
+    packable = packable && (src.extent(i)<=1 || src.stride(i) % N == 0);
+  }
+  EKAT_KERNEL_REQUIRE_MSG (packable || src.size()==0,
+      "Error! Cannot pack input view, as its strides are not compatible with the pack size.\n");
+
   auto data = src.data();
   auto packed_data = reinterpret_cast<dst_value_t*>(data);
 
@@ -282,7 +290,22 @@ auto repack (const Kokkos::View<DT,Props...>& src)
     layout.dimension[i] = src.extent(i);
   }
   layout.dimension[rank-1] = ekat::PackInfo<N>::num_packs(src.extent(rank-1));
-  
+
+  if constexpr (std::is_same_v<array_layout,Kokkos::LayoutStride>) {
+    for (int i=0; i<rank; ++i) {
+      layout.stride[i] = i==packed_dim && N>1 ? 1 : src.stride(i) / N;
+    }
+  } else if constexpr (rank==2 && std::is_same_v<array_layout,Kokkos::LayoutRight>) {
+    if (src.extent(0)>1 && src.stride(0)!=src.extent(1)) {
+      // The rows of a subview can be longer than its extent. Create a view
+      // of the full rows first, then pick the columns we need.
+      const size_t ncols = layout.dimension[1];
+      layout.dimension[1] = src.stride(0) / N;
+      return dst_view_t(Kokkos::subview(dst_view_t(packed_data,layout), Kokkos::ALL,
+                                        Kokkos::make_pair(size_t(0),ncols)));
+    }
+  }
+
   return dst_view_t(packed_data,layout);
 }
 
-- 
2.43.0


From 1428abe73bdbec380bb72e92c4f7844da5c348d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 36/41] fix: expressions promote bool and small integers like
 the scalar formula, and pow of integers is not truncated

---
 src/expression/ekat_expression_binary_op.hpp |  5 +++--
 src/expression/ekat_expression_math.hpp      | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/expression/ekat_expression_binary_op.hpp b/src/expression/ekat_expression_binary_op.hpp
index ffc51bc..345f5ea 100644
--- a/src/expression/ekat_expression_binary_op.hpp
+++ b/src/expression/ekat_expression_binary_op.hpp
@@ -22,7 +22,8 @@ public:
   using return_left_t  = eval_return_t<ELeft>;
   using return_right_t = eval_return_t<ERight>;
 
-  using return_type = std::common_type_t<return_left_t,return_right_t>;
+  // Like for builtin types, operands of small integer types (including bool) are promoted
+  using return_type = decltype(std::declval<return_left_t>()+std::declval<return_right_t>());
 
   BinaryExpression (const ELeft& left,
                     const ERight& right)
@@ -86,7 +87,7 @@ template<typename EInner>
 class NegateExpression : public ExpressionBase<NegateExpression<EInner>> {
 public:
 
-  using return_type = eval_return_t<EInner>;
+  using return_type = decltype(-std::declval<eval_return_t<EInner>>());
 
   NegateExpression (const ExpressionBase<EInner>& inner)
    : m_inner(inner.cast())
diff --git a/src/expression/ekat_expression_math.hpp b/src/expression/ekat_expression_math.hpp
index 6280a27..85913b3 100644
--- a/src/expression/ekat_expression_math.hpp
+++ b/src/expression/ekat_expression_math.hpp
@@ -17,7 +17,11 @@ namespace ekat {
                                                                                     \
     using return_arg1_t = eval_return_t<EArg1>;                                     \
     using return_arg2_t = eval_return_t<EArg2>;                                     \
-    using return_type = std::common_type_t<return_arg1_t,return_arg2_t>;            \
+    using common_type = std::common_type_t<return_arg1_t,return_arg2_t>;            \
+    /* Not always the common type, e.g., pow of integers is a double */             \
+    using return_type =                                                             \
+      std::decay_t<decltype(Kokkos::impl(std::declval<common_type>(),               \
+                                         std::declval<common_type>()))>;            \
                                                                                     \
     name##Expression (const EArg1& arg1, const EArg2& arg2)                         \
       : m_arg1(arg1)                                                                \
@@ -56,8 +60,8 @@ namespace ekat {
     KOKKOS_INLINE_FUNCTION                                                          \
     return_type eval_impl(const return_arg1_t& arg1,                                \
                           const return_arg2_t& arg2) const {                        \
-      return Kokkos::impl(static_cast<const return_type&>(arg1),                    \
-                          static_cast<const return_type&>(arg2));                   \
+      return Kokkos::impl(static_cast<const common_type&>(arg1),                    \
+                          static_cast<const common_type&>(arg2));                   \
     }                                                                               \
                                                                                     \
     EArg1   m_arg1;                                                                 \
-- 
2.43.0


From 1013287161e3febec0b4631acd0b075232294e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 37/41] fix: host_to_device and device_to_host check the number
 of rank-1 views

---
 src/pack/ekat_pack_kokkos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index ddb01fc..e132748 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -371,7 +371,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
@@ -829,7 +829,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
-- 
2.43.0


From 75ebf2003b1ab23faf7cebc2931f7b83aecb89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 38/41] fix: ViewExpression evaluates to a value, as not all
 views hand out references

---
 src/expression/ekat_expression_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/ekat_expression_view.hpp b/src/expression/ekat_expression_view.hpp
index c10b7cf..fa2690c 100644
--- a/src/expression/ekat_expression_view.hpp
+++ b/src/expression/ekat_expression_view.hpp
@@ -24,7 +24,7 @@ public:
 
   template<typename... Args>
   KOKKOS_INLINE_FUNCTION
-  const return_type& eval(Args... args) const {
+  return_type eval(Args... args) const {
     static_assert(sizeof...(Args)==ViewT::rank, "Something is off...\n");
     return m_view(args...);
   }
-- 
2.43.0


From 338a7fd4da47f25f7822eb788ddba34101dfcd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 39/41] fix: include what the FPE default mask needs in the
 test session

---
 src/testing-support/ekat_test_session.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/testing-support/ekat_test_session.cpp b/src/testing-support/ekat_test_session.cpp
index c751d18..51d298b 100644
--- a/src/testing-support/ekat_test_session.cpp
+++ b/src/testing-support/ekat_test_session.cpp
@@ -5,6 +5,9 @@
 #include "ekat_fpe.hpp"
 #include "ekat_arch.hpp"
 
+#include <cfenv>
+#include <cstdio>
+
 void ekat_initialize_test_session (int argc, char** argv, const bool print_config) {
 #ifdef EKAT_HAS_KOKKOS
   ekat::initialize_kokkos_session (argc,argv,print_config);
-- 
2.43.0


From 1bf2fcf3ff71a191c2be02a514471904644769df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 40/41] fix: remove_all_pointers and remove_all_consts look
 through const pointers

---
 src/core/ekat_std_type_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ekat_std_type_traits.hpp b/src/core/ekat_std_type_traits.hpp
index 6f6c9d8..033419d 100644
--- a/src/core/ekat_std_type_traits.hpp
+++ b/src/core/ekat_std_type_traits.hpp
@@ -29,6 +29,8 @@ template<typename T>
 struct remove_all_pointers<T*> {
   using type = typename remove_all_pointers<T>::type;
 };
+template<typename T>
+struct remove_all_pointers<T* const> : remove_all_pointers<T*> {};
 
 // std::remove_const does not remove the leading const cv from
 // the type <const T*>. Indeed, remove_const can only remove the
@@ -40,6 +42,8 @@ template<typename T>
 struct remove_all_consts<T*> {
   using type = typename remove_all_consts<T>::type*;
 };
+template<typename T>
+struct remove_all_consts<T* const> : remove_all_consts<T*> {};
 
 // The datatype of an N-dim dynamic array, given the value type and N
 template<typename T, int N>
-- 
2.43.0


From d0d7c3604761818aedcf9b148ce946810ae0d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 41/41] fix: device max_element returns the first of equal
 maxima, like std::max_element

---
 src/kokkos/ekat_math_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..1c77912 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -32,7 +32,7 @@ template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<
       me = it;
   return me;
 }
-- 
2.43.0

