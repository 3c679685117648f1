From a7f12b807d6f9a14cb2d2127a074e718f18cb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:56 +0000
Subject: [PATCH 01/99] fix: initialise all of the value of a new Var

m_value{} only initialises the first member of the union, leaving half of the
pointer indeterminate on 64bit machines: allocate() could then take it as
already allocated.
---
 wreport/var.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..24c356b 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -43,7 +43,7 @@ protected:
      */
     union {
         int32_t i;
-        char* c;
+        char* c = nullptr;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From f4b8a0c63d08b2e1f94c5c281cb59a56534c93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:26 +0000
Subject: [PATCH 02/99] fix: assigning a Var to one with a different type or
 length

Copy assignment reused the value buffer allocated for the previous description,
or took an integer as a pointer. Move assignment kept the old description.
---
 wreport/var.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..705da87 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -150,24 +150,36 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // Make a full copy first, since var can be one of our attributes, and move
+    // it in place
+    return operator=(Var(var));
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
+
+    // Release the current value, which was allocated according to the current
+    // info
+    switch (m_info->type)
+    {
+        case Vartype::Binary:
+        case Vartype::String:
+            delete[] m_value.c;
+            break;
+        case Vartype::Integer:
+        case Vartype::Decimal:
+            break;
+    }
+    m_value.c = nullptr;
+
+    m_info = var.m_info;
     move_value(var);
-    delete m_attrs;
+
+    Var* old_attrs = m_attrs;
     m_attrs = var.m_attrs;
     var.m_attrs = nullptr;
+    delete old_attrs;
     return *this;
 }
 
-- 
2.43.0


From 314d9d41ec60f17364864037c3b2a1a062d9d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:44 +0000
Subject: [PATCH 03/99] fix: Var::seta(Var&&) moves the attribute instead of
 copying it

---
 wreport/var.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 705da87..69be8b7 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -649,7 +649,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
-- 
2.43.0


From 16ea9427c81d6fc8f78c213ef89aaee1c80871c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:44 +0000
Subject: [PATCH 04/99] fix: setting the value or attributes of a Var from
 itself

setattrs() deleted the attributes before copying them, and setval() copied a
string over itself
---
 wreport/var.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 69be8b7..5f7d259 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -702,6 +702,7 @@ const Var* Var::next_attr() const
 
 void Var::setval(const Var& src)
 {
+    if (&src == this) return;
     if (!src.isset())
     {
         unset();
@@ -721,9 +722,11 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
-    clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    // Copy before deleting, since src can be this variable or one of its
+    // attributes
+    Var* new_attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
+    delete m_attrs;
+    m_attrs = new_attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From 373ca9f70b6bfd40821cec9b3df0f4c041571304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 05/99] fix: buffer overreads when converting binary variables

Binary values were not terminated but were read as C strings by enqs(), diff()
and when setting a string variable from them, and setting a binary variable
from a shorter value read past its end.
---
 wreport/var.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 5f7d259..653eb85 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -223,9 +223,6 @@ void Var::copy_value(const Var& var)
     switch (m_info->type)
     {
         case Vartype::Binary:
-            allocate();
-            memcpy(m_value.c, var.m_value.c, m_info->len);
-            break;
         case Vartype::String:
             allocate();
             memcpy(m_value.c, var.m_value.c, m_info->len + 1);
@@ -404,8 +401,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -502,6 +500,8 @@ void Var::assign_b_checked(const uint8_t* val, unsigned size)
         if (m_info->bit_len % 8)
             m_value.c[m_info->len - 1] &= static_cast<unsigned char>((1 << (m_info->bit_len % 8)) - 1);
     }
+    // Terminate the buffer, since it can be accessed as a C string
+    m_value.c[m_info->len] = 0;
     m_isset = true;
 }
 
@@ -711,7 +711,12 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary: {
+            // The value of src can be shorter than len
+            std::string val = src.enqs();
+            assign_b_checked(reinterpret_cast<const uint8_t*>(val.data()), static_cast<unsigned>(val.size()));
+            break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From 856b387baa0fe6c3a05b590871b9bfaa7b27808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:08 +0000
Subject: [PATCH 06/99] fix: domain errors when setting variables from long
 numeric strings

Numbers which do not fit in 32 bits used to wrap around, possibly into the
domain of the variable
---
 wreport/var.cc | 49 +++++++++++++++++++++++++++++++------------------
 wreport/var.h  |  2 ++
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 653eb85..3603e48 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -74,13 +74,23 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
     return length;
 }
 
-// From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+// Parse the string, which needs to have been validated with isnumber.
+// Returns false if the value does not fit in an int32_t
+bool str_to_int32(const char* str, int32_t& res)
 {
-    unsigned val = 0;
-    while (*str)
-        val = val * 10 + (*str++ - '0');
-    return val;
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
+    for ( ; *str; ++str)
+    {
+        val = val * 10 + (*str - '0');
+        if (val > static_cast<int64_t>(INT32_MAX) + 1)
+            return false;
+    }
+    if (negative) val = -val;
+    if (val > INT32_MAX) return false;
+    res = static_cast<int32_t>(val);
+    return true;
 }
 
 bool isnumber(const char *str)
@@ -519,6 +529,19 @@ void Var::assign_c_checked(const char* val, unsigned size)
     m_isset = true;
 }
 
+void Var::assign_s_checked(const char* val)
+{
+    int32_t ival;
+    if (!isnumber(val))
+        unset();
+    else if (str_to_int32(val, ival))
+        assign_i_checked(ival);
+    else
+        // Values that do not fit in an integer are out of domain for all
+        // variables
+        assign_d_checked(strtod(val, nullptr) * m_info->decode_decimal(1));
+}
+
 void Var::seti(int val)
 {
     switch (m_info->type)
@@ -559,12 +582,7 @@ void Var::setc(const char* val)
         case Vartype::Binary: assign_b_checked((const uint8_t*)val, m_info->len); break;
         case Vartype::Decimal:
         case Vartype::Integer:
-            if (!isnumber(val))
-                unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
-            else
-                assign_i_checked(str_to_unsigned(val));
+            assign_s_checked(val);
             break;
     }
 }
@@ -592,12 +610,7 @@ void Var::sets(const std::string& val)
         case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(val.c_str()), static_cast<unsigned>(val.size())); break;
         case Vartype::Integer:
         case Vartype::Decimal:
-            if (!isnumber(val.c_str()))
-                unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
-            else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+            assign_s_checked(val.c_str());
             break;
     }
 }
diff --git a/wreport/var.h b/wreport/var.h
index 24c356b..8c6ddbd 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -61,6 +61,8 @@ protected:
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
     void assign_c_checked(const char* val, unsigned size);
+    /// Assign the unscaled integer value represented in the string
+    void assign_s_checked(const char* val);
 
 public:
     /// Create a new Var, with undefined value
-- 
2.43.0


From aa23735b513b2b0be5560e82aff572755fc94949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:08 +0000
Subject: [PATCH 07/99] fix: domain errors when setting integer variables from
 doubles

NaN, infinities and values that do not fit in 32 bits used to wrap around,
possibly into the domain of the variable
---
 wreport/var.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 3603e48..dfa99e3 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -569,7 +569,14 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+            // NaNs and values that do not fit in an int are out of domain for
+            // all variables
+            if (val > INT32_MIN - 0.5 && val < INT32_MAX + 0.5)
+                assign_i_checked(static_cast<int>(lround(val)));
+            else
+                assign_d_checked(val);
+            break;
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From 0df8ec719bc29e03ca0467425e84a5b2297271e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:38 +0000
Subject: [PATCH 08/99] fix: off by one in the range of class 31 variables

An n bits field can hold up to 2^n-1, not 2^n. Compute with 64 bits integers,
since 2^n does not fit in an int with n>30.
---
 wreport/varinfo.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..65bec86 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -191,24 +191,24 @@ void _Varinfo::compute_range()
                 imin =  static_cast<int>(-(intexp10(len) - 1.0));
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
-                int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
-                // We subtract 2 because 2^bit_len-1 is the
+                int64_t bit_min = bit_ref;
+                int64_t bit_max = (static_cast<int64_t>(1) << bit_len) - 1 + bit_ref;
+                // We subtract 1 because 2^bit_len-1 is the
                 // BUFR missing value.
-                // We cannot subtract 2 from the delayed replication
+                // We cannot subtract 1 from the delayed replication
                 // factors because RADAR BUFR messages have 255
                 // subsets, and the delayed replication field is 8
                 // bits, so 255 is the missing value, and if we
                 // disallow it here we cannot import radars anymore.
                 if (WR_VAR_X(code) != 31)
-                    bit_max -= 2;
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
-                int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
-                int dec_max = static_cast<int>((intexp10(len) - 2.0));
+                int64_t dec_min = -(intexp10(len) - 1);
+                int64_t dec_max = intexp10(len) - 2;
 
-                imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imin = static_cast<int>(max(bit_min, dec_min));
+                imax = static_cast<int>(min(bit_max, dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From ff8b521293ba4faf81cf4d9e4622bc954b759f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 09/99] fix: range of BUFR variables with a large reference
 value

The number of digits was computed from the number of bits only, and the range,
limited by it, was empty or too short for variables such as B07040 or B15011
---
 wreport/vartable.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..4cc82e7 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -9,6 +9,8 @@
 #include "tableinfo.h"
 #include "error.h"
 #include "internals/tabledir.h"
+#include <algorithm>
+#include <cstdlib>
 #include <memory>
 #include <map>
 #include <cstring>
@@ -68,6 +70,22 @@ unsigned digits_per_bits(unsigned bit_count)
     }
 }
 
+/**
+ * Return len, increased if needed so that it is enough digits to represent all
+ * the unscaled values of a field of the given size and reference value
+ */
+unsigned digits_with_reference(unsigned len, unsigned bit_len, int bit_ref)
+{
+    if (bit_ref == 0 || bit_len == 0 || bit_len > 32) return len;
+    int64_t min = bit_ref;
+    int64_t max = bit_ref + (static_cast<int64_t>(1) << bit_len) - 1;
+    int64_t largest = std::max(std::abs(min), std::abs(max));
+    unsigned digits = 0;
+    for ( ; largest; largest /= 10)
+        ++digits;
+    return std::max(len, digits);
+}
+
 struct fd_closer
 {
     FILE* fd;
@@ -130,7 +148,7 @@ struct VartableEntry
         {
             case Vartype::Integer:
             case Vartype::Decimal:
-                varinfo.len = digits_per_bits(varinfo.bit_len);
+                varinfo.len = digits_with_reference(digits_per_bits(varinfo.bit_len), new_bit_len, new_bit_ref);
                 break;
             case Vartype::String:
                 varinfo.len = varinfo.bit_len / 8;
@@ -383,6 +401,7 @@ struct BufrVartable : public VartableBase
                     entry->len = 1;
                 else
                     entry->len = static_cast<unsigned>(ceil(entry->bit_len * log10(2.0)));
+                entry->len = digits_with_reference(entry->len, entry->bit_len, entry->bit_ref);
             }
 
             // Postprocess the data, filling in minval and maxval
-- 
2.43.0


From fbbaaf22a996068df3667df4fab0431e4f2967ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:06 +0000
Subject: [PATCH 10/99] fix: encode_binary raises an error for values too large
 for the field

They used to be silently truncated, or encoded as missing
---
 wreport/varinfo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 65bec86..365fc34 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -292,6 +292,11 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    // A value with all bits set to 1 means missing, except for class 31 (see compute_range)
+    double max = ldexp(1.0, bit_len > 32 ? 32 : bit_len) - (WR_VAR_X(code) == 31 ? 1 : 2);
+    if (!(res <= max))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives value %f, larger than the maximum %f",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res, max);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 8561dde49febd366933f883ea8b82142244366e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:32 +0000
Subject: [PATCH 11/99] fix: out of bounds read with scales larger than 16

They appear in shipped B tables, like B40247 in B0000000000254019001.txt
---
 wreport/varinfo.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 365fc34..9b77330 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,20 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+static inline double power10(int exp)
+{
+    // Some tables have entries with a scale that does not fit in the array
+    if (exp < static_cast<int>(sizeof(scales) / sizeof(scales[0])))
+        return scales[exp];
+    return pow(10.0, exp);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / power10(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * power10(-scale);
     else
         return val;
 }
@@ -252,17 +260,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / power10(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * power10(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * power10(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / power10(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +278,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * power10(scale)) / power10(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / power10(-scale)) * power10(-scale);
     else
         return round(val);
 }
@@ -284,9 +292,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * power10(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / power10(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From ebb1bb6891dc6ac8974fd90b61f1edc467ad5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:07 +0000
Subject: [PATCH 12/99] fix: varcode_parse rejects text that is not a complete
 code

---
 wreport/varinfo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 9b77330..cbc86b5 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -79,12 +79,12 @@ Varcode varcode_parse(const char* entry)
         case '3':
             res = 3 << 14; break;
         default:
-            res = 0; break;
+            error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
     }
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (entry[i] < '0' || entry[i] > '9')
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From a4424115470cca06f2025d496aead5322302f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 13/99] fix: comparing values of variables of different type or
 length

---
 wreport/var.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/var.cc b/wreport/var.cc
index dfa99e3..1e9ae9f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -270,11 +270,13 @@ bool Var::value_equals(const Var& var) const
 {
     if (!m_isset && !var.m_isset) return true;
     if (!m_isset || !var.m_isset) return false;
+    if (m_info->type != var.m_info->type) return false;
 
     // Compare value
     switch (m_info->type)
     {
         case Vartype::Binary:
+            if (m_info->bit_len != var.m_info->bit_len) return false;
             return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
             return strcmp(m_value.c, var.m_value.c) == 0;
-- 
2.43.0


From 353ec178624fa38288761f3acbf129164d4603e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 14/99] fix: Var::diff compares the attributes of unset
 variables

---
 wreport/var.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 1e9ae9f..be0e05e 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -865,27 +865,25 @@ unsigned Var::diff(const Var& var) const
                 WR_VAR_F(var.info()->code), WR_VAR_X(var.info()->code), WR_VAR_Y(var.info()->code), var.info()->desc);
         return 1;
     }
-    if (!isset() && !var.isset())
-        return 0;
-    if (!isset())
+    if (!isset() && var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
                 WR_VAR_FXY(code()), m_info->desc, var.enqc());
         return 1;
     }
-    if (!var.isset())
+    if (isset() && !var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is %s, second value is NULL\n",
                 WR_VAR_FXY(code()), m_info->desc, enqc());
         return 1;
     }
-    if (m_info->type != var.m_info->type)
+    if (isset() && m_info->type != var.m_info->type)
     {
         notes::logf("[%d%02d%03d %s] first variable has type %s, second has type %s\n",
                 WR_VAR_FXY(code()), m_info->desc, vartype_format(m_info->type), vartype_format(var.m_info->type));
         return 1;
     }
-    switch (m_info->type)
+    if (isset()) switch (m_info->type)
     {
         case Vartype::Binary:
             if (m_info->bit_len != var.info()->bit_len)
-- 
2.43.0


From e145cb30b2306579d6b33ab9277d656e8017d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 15/99] fix: overflow formatting the smallest integer

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index be0e05e..c47d0e8 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -341,7 +341,7 @@ static inline void int32_to_str(int32_t val, char* buf, unsigned size)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         buf[0] = '-';
         ++dest;
         --size;
@@ -361,7 +361,7 @@ static inline std::string int32_to_stdstr(int32_t val)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         unsigned digits = count_digits(dec);
         res.resize(digits + 1);
         char* dest = res.data();
-- 
2.43.0


From e0a3a6015917c68284d459a7002bdea7f9a5dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 16/99] fix: Var::format truncates large values

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index c47d0e8..588678e 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -776,8 +776,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[64];
+            snprintf(buf, 64, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From 6b0e5b00295a41d92bef2a2fd8c61d6e3034a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:49 +0000
Subject: [PATCH 17/99] fix: buffer overread setting a binary variable from a
 std::string

---
 wreport/var.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 8c6ddbd..3ba1c86 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -263,7 +263,7 @@ public:
     void set(int val) { seti(val); }
     void set(double val) { setd(val); }
     void set(const char* val) { setc(val); }
-    void set(const std::string& val) { setc(val.c_str()); }
+    void set(const std::string& val) { sets(val); }
     void set(const Var& var) { setval(var); setattrs(var); }
     /// @}
 
-- 
2.43.0


From e3ada9b43a7ecbd5d0907bd32a4040873f728133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 18/99] fix: null pointer dereference at the end of the
 outermost notes::Collect

---
 wreport/notes.cc | 5 +++++
 wreport/notes.h  | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 253dd88..51e1976 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -25,6 +25,11 @@ void set_target(std::ostream& out)
     target = &out;
 }
 
+void unset_target()
+{
+    target = nullptr;
+}
+
 std::ostream* get_target()
 {
     return target;
diff --git a/wreport/notes.h b/wreport/notes.h
index 3107486..1ee4485 100644
--- a/wreport/notes.h
+++ b/wreport/notes.h
@@ -20,6 +20,9 @@ namespace notes {
 /// Set the target stream where the notes are sent
 void set_target(std::ostream& out);
 
+/// Stop sending notes to a target stream, and discard them
+void unset_target();
+
 /// Get the current target stream for notes
 std::ostream* get_target();
 
@@ -53,7 +56,10 @@ struct Collect
     }
     ~Collect()
     {
-        set_target(*old);
+        if (old)
+            set_target(*old);
+        else
+            unset_target();
     }
 };
 
-- 
2.43.0


From 8fcb435322d054cfd54a11207a6f08f24aa1046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 19/99] fix: race conditions logging notes without a target

---
 wreport/notes.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 51e1976..a44faec 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -17,8 +17,6 @@ struct null_streambuf : public std::streambuf
 };
 
 thread_local ostream* target = 0;
-null_streambuf* null_sb = 0;
-ostream* null_stream = 0;
 
 void set_target(std::ostream& out)
 {
@@ -45,13 +43,11 @@ std::ostream& log() throw ()
     // If there is a target, use it
     if (target) return *target;
 
-    // If there is no target, return an ostream that discards all data
-    if (!null_sb)
-    {
-        null_sb = new null_streambuf;
-        null_stream = new ostream(null_sb);
-    }
-    return *null_stream;
+    // If there is no target, return an ostream that discards all data. Each
+    // thread has its own, as ostreams cannot be shared
+    static thread_local null_streambuf null_sb;
+    static thread_local ostream null_stream(&null_sb);
+    return null_stream;
 }
 
 void logf(const char* fmt, ...)
-- 
2.43.0


From 94400012011948b89db69ae70bec4160d63160b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:59 +0000
Subject: [PATCH 20/99] fix: Var::diff takes exponential time on the number of
 attributes

---
 wreport/var.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 588678e..6ad76e1 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -962,7 +962,8 @@ unsigned Var::diff(const Var& var) const
             /* Check attributes */
             const Var* a1 = next_attr();
             const Var* a2 = var.next_attr();
-            for ( ; a1 && a2; a1 = a1->next_attr(), a2 = a2->next_attr())
+            // Comparing the first attributes also compares the ones that follow
+            if (a1 && a2)
             {
                 Varcode extracode = 0;
                 if (a1->code() < a2->code())
-- 
2.43.0


From c44fab34b11b75cbea553d0c1abec99aeb306aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 21/99] fix: off by one in Opcodes::operator[]

---
 wreport/opcodes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..4c6fe7a 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
-- 
2.43.0


From 5b6f16337d8d215cdab520d07c3e22f88e671371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:00 +0000
Subject: [PATCH 22/99] fix: inverse of unit conversions with both a factor and
 an offset

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From 4137e80d41bffe93dedd6224ee6f7f87fab3e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:00 +0000
Subject: [PATCH 23/99] fix: conversion between PA and NBAR

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..8e4d0aa 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0);
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From e79edb4cae6e7e2d836a7e0b6f3e273d6a5dd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:00 +0000
Subject: [PATCH 24/99] fix: reject negative codes converting present and past
 weather

---
 wreport/conv.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 8e4d0aa..0c2c9ee 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -383,34 +383,34 @@ int convert_BUFR20012_to_WMO0513(int from)
 
 int convert_WMO4677_to_BUFR20003(int from)
 {
-	if (from <= 99)
+	if (from >= 0 && from <= 99)
 		return from;
 	else
-		error_domain::throwf("cannot handle WMO4677 present weather (%d) values above 99", from);
+		error_domain::throwf("cannot handle WMO4677 present weather (%d) values below 0 or above 99", from);
 }
 
 int convert_BUFR20003_to_WMO4677(int from)
 {
-	if (from <= 99)
+	if (from >= 0 && from <= 99)
 		return from;
 	else
-		error_domain::throwf("cannot handle BUFR 20003 present weather (%d) values above 99", from);
+		error_domain::throwf("cannot handle BUFR 20003 present weather (%d) values below 0 or above 99", from);
 }
 
 int convert_WMO4561_to_BUFR20004(int from)
 {
-	if (from <= 9)
+	if (from >= 0 && from <= 9)
 		return from;
 	else
-		error_domain::throwf("cannot handle WMO4561 past weather (%d) values above 9", from);
+		error_domain::throwf("cannot handle WMO4561 past weather (%d) values below 0 or above 9", from);
 }
 
 int convert_BUFR20004_to_WMO4561(int from)
 {
-	if (from <= 9)
+	if (from >= 0 && from <= 9)
 		return from;
 	else
-		error_domain::throwf("cannot handle BUFR 20004 present weather (%d) values above 9", from);
+		error_domain::throwf("cannot handle BUFR 20004 present weather (%d) values below 0 or above 9", from);
 }
 
 unsigned convert_BUFR08001_to_BUFR08042(unsigned from)
-- 
2.43.0


From 1e828b54a1d13855bac1aee0dc8fd0ee2ea543a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:00 +0000
Subject: [PATCH 25/99] fix: convert_degrees_to_octants rejects NaNs

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 0c2c9ee..4afe926 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -475,7 +475,7 @@ double convert_octants_to_degrees(int from)
 
 int convert_degrees_to_octants(double from)
 {
-  if (from < 0 || from > 360)
+  if (!(from >= 0 && from <= 360))
     error_domain::throwf("cannot handle  degrees (%f) values below 0.0 or above 360.0", from);
   // 0 degrees = undefined direction (wind calm)
   if (from == 0)
-- 
2.43.0


From 410a1aac6eac194af4a18e2137baa6c31d6c7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 26/99] fix: unterminated descriptions and units that fill
 their table column

---
 wreport/varinfo.cc  | 12 ++++++------
 wreport/varinfo.h   |  4 ++--
 wreport/vartable.cc |  4 ++++
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index cbc86b5..5f1730a 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -105,8 +105,8 @@ void _Varinfo::set_bufr(Varcode code,
                    int bit_ref, int bit_len)
 {
     this->code = code;
-    strncpy(this->desc, desc, 63); this->desc[63] = 0;
-    strncpy(this->unit, unit, 23); this->unit[23] = 0;
+    strncpy(this->desc, desc, 64); this->desc[64] = 0;
+    strncpy(this->unit, unit, 24); this->unit[24] = 0;
     this->scale = scale;
     this->len = len;
     this->bit_ref = bit_ref;
@@ -126,8 +126,8 @@ void _Varinfo::set_crex(Varcode code,
                    int scale, unsigned len)
 {
     this->code = code;
-    strncpy(this->desc, desc, 63); this->desc[63] = 0;
-    strncpy(this->unit, unit, 23); this->unit[23] = 0;
+    strncpy(this->desc, desc, 64); this->desc[64] = 0;
+    strncpy(this->unit, unit, 24); this->unit[24] = 0;
     this->scale = scale;
     this->len = len;
     this->bit_ref = 0;
@@ -144,7 +144,7 @@ void _Varinfo::set_crex(Varcode code,
 void _Varinfo::set_string(Varcode code, const char* desc, unsigned len)
 {
     this->code = code;
-    strncpy(this->desc, desc, 63); this->desc[63] = 0;
+    strncpy(this->desc, desc, 64); this->desc[64] = 0;
     strncpy(this->unit, "CCITTIA5", 24);
     this->scale = 0;
     this->len = len;
@@ -157,7 +157,7 @@ void _Varinfo::set_string(Varcode code, const char* desc, unsigned len)
 void _Varinfo::set_binary(Varcode code, const char* desc, unsigned bit_len)
 {
     this->code = code;
-    strncpy(this->desc, desc, 63); this->desc[63] = 0;
+    strncpy(this->desc, desc, 64); this->desc[64] = 0;
     strncpy(this->unit, "UNKNOWN", 24);
     this->scale = 0;
     this->len = static_cast<unsigned>(ceil(bit_len / 8.0));
diff --git a/wreport/varinfo.h b/wreport/varinfo.h
index a56a039..8500b9c 100644
--- a/wreport/varinfo.h
+++ b/wreport/varinfo.h
@@ -144,11 +144,11 @@ struct _Varinfo
     Vartype type;
 
     /// Freeform variable description
-    char desc[64];
+    char desc[65];
 
     /// Measurement unit of the variable, using the units defined in WMO
     /// BUFR/CREX table B
-    char unit[24];
+    char unit[25];
 
     /**
      * Scale of the variable, defining its decimal precision.
diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 4cc82e7..971b4a3 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -367,12 +367,14 @@ struct BufrVartable : public VartableBase
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
+            entry->desc[64] = 0;
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
+            entry->unit[24] = 0;
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
@@ -449,12 +451,14 @@ struct CrexVartable : public VartableBase
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
+            entry->desc[64] = 0;
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
+            entry->unit[24] = 0;
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
-- 
2.43.0


From 3ff5171b77de798809c49f642cb6721d55930936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 27/99] fix: elements that share a bitmap or a width are not
 mixed up

---
 wreport/tables.cc | 20 ++++++--------------
 wreport/tables.h  |  9 +++++----
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..e804296 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,12 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    auto key = make_pair(code, bitmap);
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +108,12 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    auto key = make_pair(code, bit_len);
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
diff --git a/wreport/tables.h b/wreport/tables.h
index 643f6d6..19da168 100644
--- a/wreport/tables.h
+++ b/wreport/tables.h
@@ -17,12 +17,13 @@ struct Tables
     const Vartable* btable;
     /// DTable used to lookup D table codes
     const DTable* dtable;
-    /// Storage for temporary Varinfos for bitmaps
-    mutable std::map<std::string, _Varinfo> bitmap_table;
+    /// Storage for temporary Varinfos for bitmaps, indexed by varcode and bitmap
+    mutable std::map<std::pair<Varcode, std::string>, _Varinfo> bitmap_table;
     /// Storage for temporary Varinfos for arbitrary character data
     mutable std::map<Varcode, _Varinfo> chardata_table;
-    /// Storage for temporary Varinfos for C06 unknown local descriptors
-    mutable std::map<unsigned, _Varinfo> unknown_table;
+    /// Storage for temporary Varinfos for C06 unknown local descriptors,
+    /// indexed by varcode and width
+    mutable std::map<std::pair<Varcode, unsigned>, _Varinfo> unknown_table;
 
     Tables();
     Tables(const Tables&) = delete;
-- 
2.43.0


From 5ff0bb337cbec402e7c7c73acfa41f120706d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:53 +0000
Subject: [PATCH 28/99] fix: lookup of D table entries that are not sorted in
 the file

---
 wreport/dtable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..0fed32c 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "error.h"
 #include "internals/tabledir.h"
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -123,6 +124,10 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Entries are looked up by binary search, but some table files are not
+        // sorted. If an entry is repeated, the last one is used
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From f53ea0e1bd5b390bb390cb0b9f96d7b6f97a3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:53 +0000
Subject: [PATCH 29/99] fix: reject B table lines without a valid variable code

---
 wreport/vartable.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 971b4a3..ac6de7d 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -247,6 +247,15 @@ struct VartableBase : public Vartable
         return entry;
     }
 
+    // Parse the variable code of a line
+    Varcode parse_code(unsigned line_no, const char* line) const
+    {
+        for (unsigned i = 0; i < 7; ++i)
+            if (!line[i] || (i > 1 && (line[i] < '0' || line[i] > '9')))
+                throw error_parse(m_pathname.c_str(), line_no, "line does not start with a variable code");
+        return WR_STRING_TO_VAR(line + 2);
+    }
+
     const VartableEntry* query_entry(Varcode code) const
     {
         int begin, end;
@@ -363,7 +372,7 @@ struct BufrVartable : public VartableBase
             /* FMT='(1x,A,1x,A64,47x,A24,I3,8x,I3)' */
 
             // Append a new entry;
-            _Varinfo* entry = obtain(line_no, WR_STRING_TO_VAR(line + 2));
+            _Varinfo* entry = obtain(line_no, parse_code(line_no, line));
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
@@ -431,7 +440,7 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
-            Varcode code = WR_STRING_TO_VAR(line + 2);
+            Varcode code = parse_code(line_no, line);
 
             if (strlen(line) < 157)
             {
-- 
2.43.0


From 10f57164931650eedef23087c4237bd1dcebf274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:58 +0000
Subject: [PATCH 30/99] fix: reads past the end of the buffer decoding
 bit-packed data

Input::get_bits checked only that the cursor was not exactly at the end of the
buffer, so values that cross the end were read from outside of it
---
 wreport/bufr/input.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..162c035 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -123,7 +123,18 @@ public:
     unsigned offset() const { return s4_cursor; }
 
     /// Return the number of bits left in the message to be decoded
-    unsigned bits_left() const { return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len); }
+    unsigned bits_left() const
+    {
+        if (s4_cursor > data_len) return 0;
+        return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len);
+    }
+
+    /// Throw error_parse if there are less than \a n bits left to be decoded
+    void check_available_bits(unsigned n) const
+    {
+        if (n > bits_left())
+            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+    }
 
     /// Read a byte value at offset \a pos
     inline unsigned read_byte(unsigned pos) const
@@ -166,8 +177,9 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        check_available_bits(n);
+        if (n > 32)
+            parse_error("cannot read %u bits of bit-packed data as a single integer", n);
 
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
@@ -195,8 +207,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        check_available_bits(n);
 
         for (unsigned i = 0; i < n; i++)
         {
-- 
2.43.0


From 4637712efe39ba3ed909a15c81343152c8ec0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:58 +0000
Subject: [PATCH 31/99] fix: integer overflow computing the missing value of 32
 bit fields

---
 wreport/buffers/bufr.cc               | 3 ++-
 wreport/bufr/decoder.cc               | 3 ++-
 wreport/bufr/input.cc                 | 3 ++-
 wreport/bulletin/associated_fields.cc | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..15fe505 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -22,7 +22,8 @@ namespace {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    if (bitlen <= 0) return 0;
+    return 0xffffffff >> (32 - (bitlen < 32 ? bitlen : 32));
 }
 
 }
diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..60328d9 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -9,7 +9,8 @@ namespace bufr {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    if (bitlen <= 0) return 0;
+    return 0xffffffff >> (32 - (bitlen < 32 ? bitlen : 32));
 }
 
 
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..36c5f6f 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -20,7 +20,8 @@ const char* bufr_sec_names[] = {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    if (bitlen <= 0) return 0;
+    return 0xffffffff >> (32 - (bitlen < 32 ? bitlen : 32));
 }
 
 }
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..ab7f6ff 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -11,7 +11,8 @@ namespace bulletin {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    if (bitlen <= 0) return 0;
+    return 0xffffffff >> (32 - (bitlen < 32 ? bitlen : 32));
 }
 
 AssociatedField::AssociatedField(const Vartable& btable)
-- 
2.43.0


From bd266ead7a5b0b794400f43a38cc0b8610311549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 32/99] fix: huge allocations decoding messages that declare
 too many or no subsets

With 0 subsets, the decoder tried to allocate 2**32 of them.
Uncompressed subsets are now allocated while they are decoded, so that a message
that is too short is rejected before allocating all the subsets it declares.
---
 wreport/bufr/decoder.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 60328d9..461b1aa 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -188,7 +188,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
-    out.obtain_subset(expected_subsets - 1);
+    if (!expected_subsets)
+        in.parse_error(3, 4, "the message declares that it contains no data subsets");
 
     /* Read BUFR section 4 (Data section) */
     TRACE("  decode_data:section 4 is %d bytes long (%02x %02x %02x %02x)\n",
@@ -200,6 +201,8 @@ void Decoder::decode_data()
 
     if (out.compression)
     {
+        out.obtain_subset(expected_subsets - 1);
+
         // Run only once
         CompressedDecoderTarget target(in, out);
         std::unique_ptr<DataSectionDecoder> dec;
@@ -211,7 +214,7 @@ void Decoder::decode_data()
         dec->run();
     } else {
         // Run once per subset
-        for (unsigned i = 0; i < out.subsets.size(); ++i)
+        for (unsigned i = 0; i < expected_subsets; ++i)
         {
             UncompressedDecoderTarget target(in, out.obtain_subset(i));
             std::unique_ptr<DataSectionDecoder> dec;
-- 
2.43.0


From 63cc9c774607772214d808ca8b60095eaeadce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 33/99] fix: double free after failing to define a data present
 bitmap

---
 wreport/bulletin/bitmaps.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..c8b4362 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -95,6 +95,7 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
     delete current;
+    current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
 }
 
-- 
2.43.0


From 5466a94dee761e1d1974402cdb0a15ce99c3652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 34/99] fix: out of bounds read using a data present bitmap
 that marks no data

A bitmap with no data present is never active, as it has nothing to iterate
---
 wreport/bulletin/bitmaps.cc | 17 +++++++++++------
 wreport/bulletin/bitmaps.h  |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index c8b4362..57898db 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -78,15 +78,18 @@ unsigned Bitmaps::next()
     if (!current)
         throw error_consistency("bitmap iteration requested when no bitmap is currently active");
     unsigned res = current->next();
-    if (current->eob())
-    {
-        delete last;
-        last = current;
-        current = nullptr;
-    }
+    retire_if_done();
     return res;
 }
 
+void Bitmaps::retire_if_done()
+{
+    if (!current || !current->eob()) return;
+    delete last;
+    last = current;
+    current = nullptr;
+}
+
 void Bitmaps::define(const Var& bitmap, const Subset& subset)
 {
     define(bitmap, subset, subset.size());
@@ -97,6 +100,7 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_po
     delete current;
     current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
+    retire_if_done();
 }
 
 void Bitmaps::reuse_last()
@@ -108,6 +112,7 @@ void Bitmaps::reuse_last()
     current = last;
     last = nullptr;
     if (current) current->reuse();
+    retire_if_done();
 }
 
 void Bitmaps::discard_last()
diff --git a/wreport/bulletin/bitmaps.h b/wreport/bulletin/bitmaps.h
index f7a9079..e6002fa 100644
--- a/wreport/bulletin/bitmaps.h
+++ b/wreport/bulletin/bitmaps.h
@@ -93,6 +93,9 @@ struct Bitmaps
      */
     unsigned next();
 
+    /// If the current bitmap has no more data to refer to, it stops being active
+    void retire_if_done();
+
     /// Return true if there is an active bitmap
     bool active() const { return (bool)current; }
 };
-- 
2.43.0


From 9c9cc268bb468e0fd2b754254305a25027618c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:40 +0000
Subject: [PATCH 35/99] fix: out of bounds read and overflows applying large
 C07 increases

---
 wreport/bulletin/interpreter.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..451cfab 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,8 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <climits>
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -111,9 +113,16 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
         };
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
+        if (c_scale_ref_width_increase > 9)
+            error_consistency::throwf("C07%03d increases the scale, reference value and width of %01d%02d%03d by too much",
+                    c_scale_ref_width_increase, WR_VAR_FXY(code));
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        int64_t new_ref = static_cast<int64_t>(bit_ref) * pow10[c_scale_ref_width_increase];
+        if (new_ref < INT_MIN || new_ref > INT_MAX)
+            error_consistency::throwf("C07%03d increases the reference value of %01d%02d%03d by too much",
+                    c_scale_ref_width_increase, WR_VAR_FXY(code));
+        bit_ref = static_cast<int>(new_ref);
     }
 
     auto refval = c03_refval_overrides.find(code);
-- 
2.43.0


From 2792c95780e7b6c07c85165cfc47304e0c1fe3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:40 +0000
Subject: [PATCH 36/99] fix: C01, C02 and C07 do not alter strings, code tables
 and flag tables

The data width, scale and reference value operators apply to elements other than
CCITT IA5 data, code tables and flag tables. Applying them also to those changed
their width, and made everything that followed decode as garbage
---
 wreport/bulletin/interpreter.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 451cfab..7965fcc 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -87,8 +87,12 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // C01, C02 and C07 do not apply to strings, code tables and flag tables
+    bool alterable = peek->type != Vartype::String &&
+        strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (alterable && c_scale_change)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -100,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (alterable && c_width_change)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (alterable && c_scale_ref_width_increase)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From 04797f905397c8fb34e14026508efad44c02c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:40 +0000
Subject: [PATCH 37/99] fix: C03000 cancels the reference value changes

---
 wreport/bulletin/interpreter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 7965fcc..6b7e60e 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -218,6 +218,10 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                TRACE("Cancel reference value changes\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From e2234e4bab783a9bab121cc54c449630b0d5a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:15 +0000
Subject: [PATCH 38/99] fix: missing values in strings and binary data not a
 multiple of 8 bits long

---
 wreport/bufr/input.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 36c5f6f..5837600 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -260,7 +260,7 @@ bool Input::decode_string(unsigned bit_len, char* str, size_t& len)
         int count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff && bitval != 0)
+        if (bitval != all_ones(count) && bitval != 0)
             missing = false;
         str[len++] = bitval;
         toread -= count;
@@ -307,7 +307,7 @@ void Input::decode_binary(Var& dest)
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        if (bitval != all_ones(count))
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From 0ca9d32ca91196c69148bfee941b7c44646df386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:44 +0000
Subject: [PATCH 39/99] fix: unbounded decoding time with nested replications
 that contain no data

A few nested R01255 descriptors that replicate only operators were enough to run
forever
---
 wreport/bufr/input.cc           |  2 ++
 wreport/bulletin/interpreter.cc | 45 +++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5837600..c25ceeb 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -323,6 +323,8 @@ void Input::decode_number(Var& dest)
 {
     Varinfo info = dest.info();
 
+    if (info->bit_len == 0)
+        error_consistency::throwf("%01d%02d%03d is described as being 0 bits long", WR_VAR_FXY(info->code));
     uint32_t val = get_bits(info->bit_len);
 
     // TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, val);
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 6b7e60e..e87f40b 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -21,6 +21,43 @@
 namespace wreport {
 namespace bulletin {
 
+namespace {
+
+/// Check if running the opcodes can consume or produce any data
+bool has_data(const Tables& tables, Opcodes ops)
+{
+    while (!ops.empty())
+    {
+        Varcode cur = ops.pop_left();
+        switch (WR_VAR_F(cur))
+        {
+            case 1:
+                // The count of delayed replications is data
+                if (WR_VAR_Y(cur) == 0) return true;
+                break;
+            case 2:
+                switch (WR_VAR_X(cur))
+                {
+                    case 5: return true;
+                    case 6:
+                        // With no bits, the descriptor that follows is skipped
+                        if (WR_VAR_Y(cur) == 0 && !ops.empty()) ops.pop_left();
+                        break;
+                    case 23:
+                        if (WR_VAR_Y(cur) == 255) return true;
+                        break;
+                    default: break;
+                }
+                break;
+            case 3: if (has_data(tables, tables.dtable->query(cur))) return true; break;
+            default: return true;
+        }
+    }
+    return false;
+}
+
+}
+
 Interpreter::Interpreter(const Tables& tables, const Opcodes& opcodes)
     : tables(tables), associated_field(*tables.btable)
 {
@@ -275,6 +312,8 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
              * Y characters (CCITT International Alphabet No. 5) are inserted
              * as a data field of Y * 8 bits in length
              */
+            if (WR_VAR_Y(code) == 0)
+                throw error_consistency("C05000 inserts no character data");
             define_raw_character_data(code);
             break;
         case 6: {
@@ -466,6 +505,12 @@ void Interpreter::r_replication(Varcode code, Varcode delayed_code, const Opcode
         TRACE("\n");
     }
 
+    // Repeating something that involves no data has no effect, and without
+    // consuming data nothing else limits how many times nested replications
+    // get run
+    if (count > 1 && !has_data(tables, ops))
+        count = 1;
+
     // encode_data_section on it `count' times
     for (unsigned i = 0; i < count; ++i)
     {
-- 
2.43.0


From c5396f4e0a7efdedfcc565d858b0f9658b509ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 40/99] fix: values of associated fields

 * B33041 attributes were always set to 0 instead of the value in the message
 * A 1 bit indicator set to 1 was considered missing: 1 bit fields have no
   missing value
 * Undefined attributes were added for some kinds of associated fields also when
   decode_adds_undef_attrs is false
 * In compressed messages, the associated fields of strings were not read, and
   missing values of associated fields were not recognised
---
 wreport/bufr/decoder.cc               |  4 +-
 wreport/bufr/input.cc                 | 53 ++++++++++++++-------
 wreport/bufr/input.h                  | 14 ++++++
 wreport/bulletin/associated_fields.cc | 68 +++++++++------------------
 4 files changed, 76 insertions(+), 63 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 461b1aa..5f5620a 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -509,7 +509,9 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     switch (info->type)
     {
         case Vartype::String:
-            in.decode_string(info, subset_count, dest);
+            in.decode_string_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
+                dest.add_var(subset_no, std::move(var));
+            });
             break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index c25ceeb..6781e41 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -415,7 +415,7 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     }
 }
 
-void Input::decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+std::vector<std::unique_ptr<Var>> Input::decode_compressed_associated_fields(const bulletin::AssociatedField& associated_field, unsigned subsets)
 {
     // debug_dump_next_bits("Input:decode_compressed_base:", 500, {associated_field.bit_count, 6, info->bit_len, 6});
 
@@ -439,28 +439,47 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
 
-    if (af_base == all_ones(associated_field.bit_count))
-    {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
+    /// Value of associated fields that are missing
+    uint32_t missing_value = all_ones(associated_field.bit_count);
 
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
+    // One bit indicators have no missing value
+    bool missing = associated_field.bit_count > 1 && af_base == missing_value;
+    if (missing && af_diffbits != 0)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value of associated fields is missing", af_diffbits);
+
+    std::vector<std::unique_ptr<Var>> res(subsets);
+    for (unsigned i = 0; i < subsets; ++i)
+    {
+        uint32_t value = af_base;
+        if (af_diffbits)
         {
             uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
+            value = diff == all_ones(af_diffbits) ? missing_value : af_base + diff;
             TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
         }
-
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
+        res[i] = associated_field.make_attribute(value);
     }
+    return res;
+}
+
+void Input::decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+{
+    auto associated_fields = decode_compressed_associated_fields(associated_field, subsets);
+    decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    });
+}
+
+void Input::decode_string_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+{
+    auto associated_fields = decode_compressed_associated_fields(associated_field, subsets);
+    decode_string(info, subsets, [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    });
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 162c035..ac50f00 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -324,12 +324,26 @@ public:
 
     void decode_compressed_number(Varinfo info, unsigned subsets, DispatchToSubsets& dest);
 
+    /**
+     * Decode the values of the associated field that precedes a variable from
+     * a compressed bufr with \a subsets subsets.
+     *
+     * Returns one attribute for each subset, or nullptr if there is none to add
+     */
+    std::vector<std::unique_ptr<Var>> decode_compressed_associated_fields(const bulletin::AssociatedField& afield, unsigned subsets);
+
     /**
      * Decode a number as described by \a info from a compressed bufr with
      * \a subsets subsets, and send the resulting variables to \a dest
      */
     void decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
 
+    /**
+     * Decode a string as described by \a info from a compressed bufr with
+     * \a subsets subsets, and send the resulting variables to \a dest
+     */
+    void decode_string_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
+
     /**
      * Decode a number as described by dest.info(), and set it as value for \a
      * dest. The number is decoded for \a subsets compressed datasets, and an
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index ab7f6ff..f2a371c 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -23,21 +23,15 @@ AssociatedField::~AssociatedField() {}
 
 std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
 {
-    bool missing = value == all_ones(bit_count);
+    // One bit indicators have no missing value
+    bool missing = bit_count > 1 && value == all_ones(bit_count);
+    Varcode code;
     switch (significance)
     {
-        case 1:
-            // Add attribute B33002=value
-            if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2))));
-            else
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
-        case 2:
-            // Add attribute B33003=value
-            if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3))));
-            else
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3)), (int)value));
+        // Add attribute B33002=value
+        case 1: code = WR_VAR(0, 33, 2); break;
+        // Add attribute B33003=value
+        case 2: code = WR_VAR(0, 33, 3); break;
         case 3:
         case 4:
         case 5:
@@ -45,38 +39,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
             notes::logf("Ignoring B31021=%u, which is documented as 'reserved'\n",
                     significance);
             return unique_ptr<Var>();
-        case 6:
-            // Add attribute B33050=value
-            if (missing)
-            {
-                if (skip_missing)
-                    return std::unique_ptr<Var>();
-                else
-                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 50))));
-            } else
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 50)), (int)value));
-        case 7:
-            // Add attribute B33040=value
-            if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40))));
-            else
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40)), (int)value));
-        case 8:
-            // Add attribute B33002=value
-            if (missing)
-            {
-                if (skip_missing)
-                    return unique_ptr<Var>();
-                else
-                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2))));
-            } else
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
-        case 21:
-            // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+        // Add attribute B33050=value
+        case 6: code = WR_VAR(0, 33, 50); break;
+        // Add attribute B33040=value
+        case 7: code = WR_VAR(0, 33, 40); break;
+        // Add attribute B33002=value
+        case 8: code = WR_VAR(0, 33, 2); break;
+        // Add attribute B33041=value
+        case 21: code = WR_VAR(0, 33, 41); break;
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
@@ -105,6 +75,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 error_unimplemented::throwf("C04 modifiers with B31021=%u are not supported", significance);
             return std::unique_ptr<Var>();
     }
+
+    if (missing && skip_missing)
+        return std::unique_ptr<Var>();
+
+    std::unique_ptr<Var> res(new Var(btable.query(code)));
+    if (!missing)
+        res->seti(static_cast<int>(value));
+    return res;
 }
 
 const Var* AssociatedField::get_attribute(const Var& var) const
-- 
2.43.0


From 9cf4c867516e86977464835ead81725fe3e4ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 41/99] fix: associated fields of a subset leak into the next
 ones

When decoding compressed data, the same Var is reused for all the subsets, and it
kept the attributes of the previous subset when the next has none
---
 wreport/bufr/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index ac50f00..1371ead 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -34,7 +34,7 @@ struct DispatchToSubsets
     }
     void add_var(unsigned subset, Var&& var)
     {
-        out.subsets[subset].store_variable(var);
+        out.subsets[subset].store_variable(std::move(var));
     }
 };
 
-- 
2.43.0


From 7fb63f9776c0019c12f985df513a3c8b345fe15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 42/99] fix: encode all the bits of missing values longer than
 32 bits

---
 wreport/buffers/bufr.cc | 4 +++-
 wreport/buffers/bufr.h  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 15fe505..519ae2c 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -39,8 +39,10 @@ BufrOutput::BufrOutput(std::string& out)
 
 void BufrOutput::add_bits(uint32_t val, int n)
 {
+    if (n <= 0) return;
+
     /* Mask for reading data out of val */
-    uint32_t mask = 1 << (n - 1);
+    uint32_t mask = static_cast<uint32_t>(1) << (n - 1);
     int i;
 
     for (i = 0; i < n; i++) 
diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From a22e4f7314d1923718e824f2cb01cdbae5b3ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 43/99] fix: encode the master table number in BUFR edition 4

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..c465c54 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From 787ccbcc04c1808014ad99737a668d0facaed794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 44/99] fix: undefined behaviour encoding C03 reference values
 of 0 or with more than 32 bits

---
 wreport/bufr/decoder.cc           |  6 +++---
 wreport/bufr_encoder.cc           | 11 +++++++----
 wreport/bulletin/dds-validator.cc | 11 +++++++----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 5f5620a..7a91fc3 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -379,10 +379,10 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 int UncompressedDecoderTarget::decode_c03_refval_override(unsigned bits)
 {
     uint32_t res = in.get_bits(bits);
-    uint32_t sign_bit = 1 << (bits - 1);
+    uint32_t sign_bit = static_cast<uint32_t>(1) << (bits - 1);
 
-    if (res & (1 << (bits - 1)))
-        return -(res & ~sign_bit);
+    if (res & sign_bit)
+        return -static_cast<int>(res & ~sign_bit);
     else
         return res;
 }
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c465c54..b292881 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -122,17 +122,20 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         }
 
 
+        if (c03_refval_override_bits > 32)
+            error_consistency::throwf("C03 reference value override requested with %u bits, but at most 32 are supported", c03_refval_override_bits);
+
         // Encode
         uint32_t encoded;
         unsigned nbits;
         if (bit_ref < 0)
         {
-            encoded = -bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
-            encoded |= 1 << (c03_refval_override_bits - 1);
+            encoded = -static_cast<uint32_t>(bit_ref);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
+            encoded |= static_cast<uint32_t>(1) << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..e826c4f 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -102,17 +102,20 @@ void DDSValidator::define_c03_refval_override(Varcode code)
         bit_ref = info->bit_ref;
     }
 
+    if (c03_refval_override_bits > 32)
+        error_consistency::throwf("C03 reference value override requested with %u bits, but at most 32 are supported", c03_refval_override_bits);
+
     // Encode
     uint32_t encoded;
     unsigned nbits;
     if (bit_ref < 0)
     {
-        encoded = -bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
-        encoded |= 1 << (c03_refval_override_bits - 1);
+        encoded = -static_cast<uint32_t>(bit_ref);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
+        encoded |= static_cast<uint32_t>(1) << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
-- 
2.43.0


From 4e52a0011f66cb4802702635ee5b1e6070fb15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 45/99] fix: undefined behaviour validating 32 bit fields

---
 wreport/bulletin/dds-validator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index e826c4f..73fb716 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -37,7 +37,7 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
                 encoded = info->encode_binary(var.enqd());
             if (!is_crex)
             {
-                if (encoded >= (1u<<info->bit_len))
+                if (info->bit_len < 32 && encoded >= (1u<<info->bit_len))
                     error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
             }
         }
-- 
2.43.0


From 4b50a3059ad64ebd0dc5986d62e9ce6ba7167a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:31 +0000
Subject: [PATCH 46/99] fix: printing messages with C03, C05, C23255 and empty
 data present bitmaps

---
 wreport/bulletin/dds-printer.cc      | 23 +++++++++++++++++++++--
 wreport/bulletin/dds-printer.h       |  1 +
 wreport/bulletin/dds-scanfeatures.cc | 10 ++++++++++
 wreport/bulletin/dds-scanfeatures.h  |  2 ++
 wreport/bulletin/interpreter.cc      |  6 ++++++
 wreport/bulletin/interpreter.h       |  1 +
 6 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..6cf2abc 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -1,4 +1,5 @@
 #include "wreport/bulletin/dds-printer.h"
+#include "wreport/vartable.h"
 
 using namespace std;
 
@@ -71,6 +72,7 @@ void DDSPrinter::encode_var(Varinfo info, const Var& var)
 
 void DDSPrinter::define_bitmap(unsigned bitmap_size)
 {
+    const Var& var = peek_var();
     UncompressedEncoder::define_bitmap(bitmap_size);
 #if 0
     if (delayed_code)
@@ -81,8 +83,8 @@ void DDSPrinter::define_bitmap(unsigned bitmap_size)
         var.print(out);
     }
 #endif
-    print_context(bitmaps.current->bitmap.info(), 0);
-    bitmaps.current->bitmap.print(out);
+    print_context(var.info(), 0);
+    var.print(out);
 }
 
 void DDSPrinter::define_raw_character_data(Varcode code)
@@ -93,6 +95,23 @@ void DDSPrinter::define_raw_character_data(Varcode code)
     var.print(out);
 }
 
+void DDSPrinter::define_c03_refval_override(Varcode code)
+{
+    // The new reference value is not stored in the subset, except in the
+    // variables that use it
+    int bit_ref = tables.btable->query(code)->bit_ref;
+    for (const auto& var: current_subset)
+        if (var.code() == code)
+        {
+            bit_ref = var.info()->bit_ref;
+            break;
+        }
+
+    print_context(code, 0);
+    fprintf(out, "(new reference value) %d\n", bit_ref);
+    c03_refval_overrides[code] = bit_ref;
+}
+
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-printer.h b/wreport/bulletin/dds-printer.h
index 8c533d4..b1e307e 100644
--- a/wreport/bulletin/dds-printer.h
+++ b/wreport/bulletin/dds-printer.h
@@ -38,6 +38,7 @@ public:
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
     void encode_associated_field(const Var& var) override;
 
diff --git a/wreport/bulletin/dds-scanfeatures.cc b/wreport/bulletin/dds-scanfeatures.cc
index 09f269f..ebcc32b 100644
--- a/wreport/bulletin/dds-scanfeatures.cc
+++ b/wreport/bulletin/dds-scanfeatures.cc
@@ -22,9 +22,15 @@ void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
             features.insert(varcode_format(code));
             break;
     }
+    // There are no bitmaps to apply when there is no data
+    if (code == WR_VAR(2, 23, 255)) return;
     Interpreter::c_modifier(code, next);
 }
 
+void ScanFeatures::b_variable(Varcode code)
+{
+}
+
 void ScanFeatures::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
 {
     if (delayed_code)
@@ -44,6 +50,10 @@ void ScanFeatures::define_bitmap(unsigned bitmap_size)
 {
 }
 
+void ScanFeatures::define_raw_character_data(Varcode code)
+{
+}
+
 unsigned ScanFeatures::define_associated_field_significance(Varinfo info)
 {
     return 63;
diff --git a/wreport/bulletin/dds-scanfeatures.h b/wreport/bulletin/dds-scanfeatures.h
index 0de3adf..6d10265 100644
--- a/wreport/bulletin/dds-scanfeatures.h
+++ b/wreport/bulletin/dds-scanfeatures.h
@@ -18,10 +18,12 @@ public:
 
     ScanFeatures(const Tables& tables, const Opcodes& opcodes);
 
+    void b_variable(Varcode code) override;
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void define_variable(Varinfo info) override;
     void define_bitmap(unsigned bitmap_size) override;
+    void define_raw_character_data(Varcode code) override;
     unsigned define_associated_field_significance(Varinfo info) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
 };
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index e87f40b..0822a7f 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -697,6 +697,8 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
+    // There are no bitmaps to apply when there is no data
+    if (code == WR_VAR(2, 23, 255)) return;
     Interpreter::c_modifier(code, next);
 }
 
@@ -739,6 +741,10 @@ void Printer::define_bitmap(unsigned bitmap_size)
 {
 }
 
+void Printer::define_raw_character_data(Varcode code)
+{
+}
+
 unsigned Printer::define_associated_field_significance(Varinfo info)
 {
     print_lead(info->code);
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index b98019f..61ff4d7 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -259,6 +259,7 @@ public:
     void define_variable(Varinfo info) override;
     void define_variable_with_associated_field(Varinfo info) override;
     void define_bitmap(unsigned bitmap_size) override;
+    void define_raw_character_data(Varcode code) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
     unsigned define_associated_field_significance(Varinfo info) override;
 };
-- 
2.43.0


From a19fcd521b50e8758aa3fa883272e67dfa743751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 47/99] fix: encoding errors for values that do not fit their
 field and for variables that do not match the descriptors

---
 wreport/buffers/bufr.cc |  6 ++++++
 wreport/bufr_encoder.cc | 34 ++++++++++++++++++++++++++++++----
 wreport/bulletin.cc     |  2 ++
 wreport/bulletin.h      |  2 +-
 wreport/subset.cc       |  7 +++++++
 5 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 519ae2c..8f28610 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -132,10 +132,16 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
             append_string(var.enqc(), info->bit_len);
             break;
         case Vartype::Binary:
+            if (var.info()->type != Vartype::Binary || var.info()->bit_len != info->bit_len)
+                error_consistency::throwf("variable %01d%02d%03d is not a binary value of %u bits",
+                        WR_VAR_FXY(info->code), info->bit_len);
             append_binary((const unsigned char*)var.enqc(), info->bit_len);
             break;
         case Vartype::Integer:
         case Vartype::Decimal:
+            if (info->bit_len > 32)
+                error_consistency::throwf("variable %01d%02d%03d is %u bits long, but at most 32 are supported",
+                        WR_VAR_FXY(info->code), info->bit_len);
             unsigned ival = info->encode_binary(var.enqd());
             add_bits(ival, info->bit_len);
             break;
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index b292881..301c37e 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,13 +57,24 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
-        else
+        {
+            int val = att->enqi();
+            // The value with all bits set means missing, except in one bit fields
+            uint32_t max = 0xffffffff >> (32 - associated_field.bit_count);
+            if (associated_field.bit_count > 1)
+                --max;
+            if (val < 0 || static_cast<uint32_t>(val) > max)
+                error_consistency::throwf("value %d does not fit in an associated field of %u bits", val, associated_field.bit_count);
+            ob.add_bits(val, associated_field.bit_count);
+        } else
             ob.append_missing(associated_field.bit_count);
     }
 
     void encode_var(Varinfo info, const Var& var) override
     {
+        if (var.code() != info->code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
         ob.append_var(info, var);
     }
 
@@ -93,8 +104,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_raw_character_data(Varcode code) override
     {
         const Var& var = get_var();
-        const char* val = var.enq("");
-        ob.append_string(val, WR_VAR_Y(code) * 8);
+        if (var.code() != code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(code));
+        if (var.isset())
+            ob.append_string(var.enqc(), WR_VAR_Y(code) * 8);
+        else
+            ob.append_missing(WR_VAR_Y(code) * 8);
     }
 
     void define_c03_refval_override(Varcode code) override
@@ -321,6 +337,9 @@ void Encoder::encode_sec3()
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets, but at most 65535 can be encoded", in.subsets.size());
+
     // Length of section
     out.add_bits(8 + 2 * static_cast<uint32_t>(in.datadesc.size()), 24);
     // Set to 0 (reserved)
@@ -355,6 +374,9 @@ void Encoder::encode_sec4()
         // Encode the data of this subset
         DDSEncoder e(in, i, out);
         e.run();
+        if (e.current_var != in.subsets[i].size())
+            error_consistency::throwf("subset %u has %zu variables but only %u are described by the data descriptors",
+                    i, in.subsets[i].size(), e.current_var);
     }
 
     // Write all the bits and pad the data section to reach an even length
@@ -400,6 +422,10 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // The lengths of the message and of its sections are 24 bits long
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long, but at most 16777215 can be encoded", out.out.size());
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..609ae21 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -336,6 +336,8 @@ void BufrBulletin::clear()
     master_table_version_number_local = 0;
     compression = false;
     optional_section.clear();
+    for (auto& end: section_end)
+        end = 0;
 }
 
 void BufrBulletin::load_tables()
diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..4da72f1 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -95,6 +95,9 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
 
+        if (src == this->size())
+            break;
+
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
             bitmap[dst] = '-';
@@ -104,6 +107,10 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
 			++count;
 		}
 	}
+
+    // Mark as not present the variables that are not there
+    for ( ; dst < size; ++dst)
+        bitmap[dst] = '-';
 	bitmap[size] = 0;
 
 	// Append the bitmap to the message
-- 
2.43.0


From 4d4e844d5e497ca18d53ca24bae64395cd5eb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:41 +0000
Subject: [PATCH 48/99] fix: CREX check digits, replication counts, SUPP
 section, values that do not fit and endless loop decoding the header

---
 wreport/buffers/crex.cc | 52 ++++++++++++++++++++++++++++++++++-------
 wreport/crex_decoder.cc | 35 ++++++++++++++++++++-------
 wreport/crex_encoder.cc | 45 +++++++++++++++++++++++++++--------
 3 files changed, 105 insertions(+), 27 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..8697469 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,5 +1,7 @@
 #include "crex.h"
 #include "wreport/var.h"
+#include <climits>
+#include <cmath>
 #include <cstdarg>
 #include "config.h"
 
@@ -104,6 +106,9 @@ void CrexInput::parse_value(int len, int is_signed, const char** d_start, const
 {
     //TRACE("crex_decoder_parse_value(%d, %s): ", len, is_signed ? "signed" : "unsigned");
 
+    if (len <= 0)
+        parse_error("cannot decode a value %d characters long", len);
+
     /* Check for 2 more because we may have extra sign and check digit */
     check_available_data(len + 2, "end of data descriptor section");
 
@@ -176,13 +181,21 @@ void CrexOutput::raw_append(const char* str, int len)
 
 void CrexOutput::raw_appendf(const char* fmt, ...)
 {
-    char sbuf[256];
+    char* sbuf;
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vasprintf(&sbuf, fmt, ap);
     va_end(ap);
-
-    buf.append(sbuf, len);
+    if (len == -1)
+        throw error_alloc("cannot format a value to encode in a CREX message");
+
+    try {
+        buf.append(sbuf, len);
+    } catch (...) {
+        free(sbuf);
+        throw;
+    }
+    free(sbuf);
 }
 
 void CrexOutput::encode_check_digit()
@@ -197,6 +210,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
@@ -212,21 +227,40 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
 
     switch (info->type)
     {
-        case Vartype::String:
-            raw_appendf("%-*.*s", len, len, var.enqc());
+        case Vartype::String: {
+            const char* val = var.enqc();
+            // Spaces separate values, and / marks missing values
+            if (!*val || *val == '/' || isspace(*val))
+                error_consistency::throwf("cannot encode %01d%02d%03d \"%s\" to CREX: strings cannot be empty or start with a space or a slash",
+                        WR_VAR_FXY(info->code), val);
+            raw_appendf("%-*.*s", len, len, val);
             // TRACE("encode_b string len: %d val %-*.*s\n", len, len, len, var.value());
             break;
+        }
         case Vartype::Binary:
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
         case Vartype::Decimal: {
-            int val = var.enqi();
+            int val;
+            if (var.info()->scale == info->scale)
+                val = var.enqi();
+            else
+            {
+                double dval = rint(var.enqd() * pow(10, info->scale));
+                if (!(dval >= INT_MIN && dval <= INT_MAX))
+                    error_consistency::throwf("cannot encode %01d%02d%03d %f to %d digits", WR_VAR_FXY(info->code), dval, len);
+                val = static_cast<int>(dval);
+            }
 
             /* FIXME: here goes handling of active C table modifiers */
 
-            if (val < 0) ++len;
+            int width = len;
+            if (val < 0) ++width;
+
+            if (snprintf(nullptr, 0, "%0*d", width, val) > width)
+                error_consistency::throwf("cannot encode %01d%02d%03d %d to %d digits", WR_VAR_FXY(info->code), val, len);
 
-            raw_appendf("%0*d", len, val);
+            raw_appendf("%0*d", width, val);
             // TRACE("encode_b num len: %d val %0*d\n", len, len, val);
             break;
         }
diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..5743a4c 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -1,6 +1,7 @@
 #include "bulletin.h"
 #include "bulletin/interpreter.h"
 #include "buffers/crex.h"
+#include <climits>
 #include <cstring>
 #include "config.h"
 
@@ -83,6 +84,7 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
@@ -98,12 +100,14 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         }
         else if (*in.cur == '+')
         {
-            in.check_available_data(1, "end of data descriptor section");
+            in.check_available_data(2, "end of data descriptor section");
             if (*(in.cur+1) != '+')
                 in.parse_error("data descriptor section ends with only one '+'");
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character '%c' in the data descriptor section", *in.cur);
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
@@ -129,7 +133,7 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    uint32_t read_variable(Varinfo info, unsigned len)
     {
         uint32_t res = 0xffffffff;
 
@@ -139,7 +143,7 @@ struct CrexParser : public bulletin::Interpreter
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -149,8 +153,11 @@ struct CrexParser : public bulletin::Interpreter
                 std::string buf(d_start, d_end - d_start);
                 var.setc(buf.c_str());
             } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
-                var.seti(val);
+                std::string buf(d_start, d_end - d_start);
+                long val = strtol(buf.c_str(), 0, 10);
+                if (val < INT_MIN || val > INT_MAX)
+                    in.parse_error("value %s is too big", buf.c_str());
+                var.seti(static_cast<int>(val));
                 res = val;
             }
         }
@@ -165,12 +172,24 @@ struct CrexParser : public bulletin::Interpreter
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // Replication counts are always 4 digits long
+        unsigned len = info->len;
+        switch (info->code)
+        {
+            case WR_VAR(0, 31, 1):
+            case WR_VAR(0, 31, 2):
+            case WR_VAR(0, 31, 11):
+            case WR_VAR(0, 31, 12): len = 4; break;
+        }
+        uint32_t count = read_variable(info, len);
+        if (count > INT_MAX)
+            in.parse_error("replication count is missing or negative");
+        return count;
     }
 };
 
@@ -209,7 +228,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..78ef104 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -41,9 +41,17 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_var ");
             var.print(stderr);
         }
+        check_code(info, var);
         ob.append_var(info, var);
     }
 
+    void check_code(Varinfo info, const Var& var)
+    {
+        if (var.code() != info->code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
+    }
+
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
         const Var& var = get_var();
@@ -51,6 +59,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_semantic_var ");
             var.print(stderr);
         }
+        check_code(info, var);
         switch (info->code)
         {
             case WR_VAR(0, 31, 1):
@@ -58,35 +67,41 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             case WR_VAR(0, 31, 11):
             case WR_VAR(0, 31, 12):
             {
-                unsigned count = var.enqi();
+                int count = var.enqi();
+                if (count < 0 || count > 9999)
+                    error_consistency::throwf("replication count %d does not fit in 4 digits", count);
 
                 /* Encode the repetition count */
                 ob.raw_append(" ", 1);
                 ob.encode_check_digit();
-                ob.raw_appendf("%04u", count);
+                ob.raw_appendf("%04d", count);
 
                 return count;
             }
             default:
+            {
+                unsigned count = var.enqi();
                 ob.append_var(info, var);
-                if (var.isset())
-                    return var.enqi();
-                else
-                    return 0xffffffff;
+                return count;
+            }
         }
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
+    if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
+        error_consistency::throwf("master table number %d, edition %d and table version %d must have at most 2 digits each",
+                in.master_table_number, in.edition_number, in.master_table_version_number);
+
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
@@ -95,6 +110,7 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
 
     /* Encode the data descriptor section */
 
+    bool after_delayed_replication = false;
     for (vector<Varcode>::const_iterator i = in.datadesc.begin();
             i != in.datadesc.end(); ++i)
     {
@@ -109,7 +125,9 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
         }
 
         // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
+        bool is_replication_count = after_delayed_replication;
+        after_delayed_replication = WR_VAR_F(*i) == 1 && WR_VAR_Y(*i) == 0;
+        if (is_replication_count && WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
             continue;
 
         out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
@@ -131,6 +149,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
@@ -143,11 +162,17 @@ string CrexBulletin::encode() const
     /* Encode section 2 */
     //int sec2_start = out.buf.size();
 
+    if (subsets.empty())
+        throw error_consistency("message to encode has no data subsets");
+
     // Encode all subsets
     for (unsigned i = 0; i < subsets.size(); ++i)
     {
         DDSEncoder e(*this, i, out);
         e.run();
+        if (e.current_var != subsets[i].size())
+            error_consistency::throwf("subset %u has %zu variables but only %u are described by the data descriptors",
+                    i, subsets[i].size(), e.current_var);
     }
     out.raw_append("++\r\r\n", 5);
 
-- 
2.43.0


From c299b5f1c04e983e7f261df742ba266a1c4be81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:11 +0000
Subject: [PATCH 49/99] fix: validate all that can make encoding fail

---
 wreport/bufr_encoder.cc               |  6 +-
 wreport/bulletin/associated_fields.cc |  9 +++
 wreport/bulletin/associated_fields.h  |  3 +
 wreport/bulletin/dds-validator.cc     | 80 +++++++++++++++++++--------
 wreport/bulletin/dds-validator.h      |  9 ++-
 wreport/crex_encoder.cc               |  5 ++
 6 files changed, 84 insertions(+), 28 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 301c37e..e9da640 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -59,11 +59,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         if (att && att->isset())
         {
             int val = att->enqi();
-            // The value with all bits set means missing, except in one bit fields
-            uint32_t max = 0xffffffff >> (32 - associated_field.bit_count);
-            if (associated_field.bit_count > 1)
-                --max;
-            if (val < 0 || static_cast<uint32_t>(val) > max)
+            if (!associated_field.fits(val))
                 error_consistency::throwf("value %d does not fit in an associated field of %u bits", val, associated_field.bit_count);
             ob.add_bits(val, associated_field.bit_count);
         } else
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index f2a371c..ea9cecf 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -21,6 +21,15 @@ AssociatedField::AssociatedField(const Vartable& btable)
 }
 AssociatedField::~AssociatedField() {}
 
+bool AssociatedField::fits(int value) const
+{
+    // The value with all bits set means missing, except in one bit fields
+    uint32_t max = all_ones(bit_count);
+    if (bit_count > 1)
+        --max;
+    return value >= 0 && static_cast<uint32_t>(value) <= max;
+}
+
 std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
 {
     // One bit indicators have no missing value
diff --git a/wreport/bulletin/associated_fields.h b/wreport/bulletin/associated_fields.h
index 15f3f5d..2ee6521 100644
--- a/wreport/bulletin/associated_fields.h
+++ b/wreport/bulletin/associated_fields.h
@@ -43,6 +43,9 @@ struct AssociatedField
      */
     std::unique_ptr<Var> make_attribute(unsigned value) const;
 
+    /// Check if a value can be encoded in this associated field
+    bool fits(int value) const;
+
     /**
      * Get the attribute of var corresponding to this associated field
      * significance.
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 73fb716..8ae351c 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -1,5 +1,7 @@
 #include "wreport/bulletin/dds-validator.h"
 #include "wreport/vartable.h"
+#include "wreport/buffers/bufr.h"
+#include "wreport/buffers/crex.h"
 
 using namespace std;
 
@@ -19,32 +21,32 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
                 WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()),
                 WR_VAR_F(info->code), WR_VAR_X(info->code), WR_VAR_Y(info->code));
 
-    if (!var.isset())
-        ;
-    else switch (info->type)
+    // Raise an exception if the value cannot be encoded
+    std::string buf;
+    if (is_crex)
     {
-        case Vartype::String:
-            break;
-        case Vartype::Binary:
-            break;
-        case Vartype::Integer:
-        case Vartype::Decimal:
-        {
-            unsigned encoded;
-            if (is_crex)
-                encoded = info->encode_decimal(var.enqd());
-            else
-                encoded = info->encode_binary(var.enqd());
-            if (!is_crex)
-            {
-                if (info->bit_len < 32 && encoded >= (1u<<info->bit_len))
-                    error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
-            }
-        }
-        break;
+        buffers::CrexOutput out(buf);
+        out.append_var(info, var);
+    } else {
+        buffers::BufrOutput out(buf);
+        out.append_var(info, var);
     }
 }
 
+void DDSValidator::check_not_crex(const char* feature)
+{
+    if (is_crex)
+        error_unimplemented::throwf("%s cannot be encoded in CREX", feature);
+}
+
+void DDSValidator::run()
+{
+    UncompressedEncoder::run();
+    if (current_var != current_subset.size())
+        error_consistency::throwf("subset has %zu variables but only %u are described by the data descriptors",
+                current_subset.size(), current_var);
+}
+
 void DDSValidator::check_attr(Varinfo info, unsigned var_pos)
 {
     const Var& var = get_var(var_pos);
@@ -57,6 +59,37 @@ void DDSValidator::encode_var(Varinfo info, const Var& var)
     check_fits(info, var);
 }
 
+void DDSValidator::encode_associated_field(const Var& var)
+{
+    const Var* att = associated_field.get_attribute(var);
+    if (att && att->isset() && !associated_field.fits(att->enqi()))
+        error_consistency::throwf("value %d does not fit in an associated field of %u bits", att->enqi(), associated_field.bit_count);
+}
+
+void DDSValidator::define_bitmap(unsigned bitmap_size)
+{
+    check_not_crex("data present bitmap");
+    const Var& var = peek_var();
+    UncompressedEncoder::define_bitmap(bitmap_size);
+    if (var.info()->len != bitmap_size)
+        error_consistency::throwf("bitmap given is %u bits long, but we need to encode %u bits",
+                var.info()->len, bitmap_size);
+}
+
+unsigned DDSValidator::define_delayed_replication_factor(Varinfo info)
+{
+    unsigned count = UncompressedEncoder::define_delayed_replication_factor(info);
+    if (is_crex && count > 9999)
+        error_consistency::throwf("replication count %u does not fit in 4 digits", count);
+    return count;
+}
+
+unsigned DDSValidator::define_associated_field_significance(Varinfo info)
+{
+    check_not_crex("associated field");
+    return UncompressedEncoder::define_associated_field_significance(info);
+}
+
 void DDSValidator::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
@@ -71,6 +104,7 @@ void DDSValidator::define_attribute(Varinfo info, unsigned pos)
 
 void DDSValidator::define_raw_character_data(Varcode code)
 {
+    check_not_crex("raw character data");
     const Var& var = get_var();
     if (var.code() != code)
         error_consistency::throwf("input variable %d%02d%03d differs from expected variable %d%02d%03d",
@@ -80,6 +114,8 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
+    check_not_crex("reference value change");
+
     // Scan the subset looking for a variables with the given code, to see what
     // is its bit_ref
     bool found = false;
diff --git a/wreport/bulletin/dds-validator.h b/wreport/bulletin/dds-validator.h
index 27b7c99..52c8680 100644
--- a/wreport/bulletin/dds-validator.h
+++ b/wreport/bulletin/dds-validator.h
@@ -40,6 +40,7 @@ class DDSValidator : public UncompressedEncoder
     bool is_crex;
     void check_fits(Varinfo info, const Var& var);
     void check_attr(Varinfo info, unsigned var_pos);
+    void check_not_crex(const char* feature);
 
 public:
     /**
@@ -50,12 +51,18 @@ public:
      */
     DDSValidator(const Bulletin& b, unsigned subset_idx);
 
-    //void define_bitmap(unsigned bitmap_size) override;
+    /// Validate the subset
+    void run();
+
+    void define_bitmap(unsigned bitmap_size) override;
+    unsigned define_delayed_replication_factor(Varinfo info) override;
+    unsigned define_associated_field_significance(Varinfo info) override;
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
     void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
+    void encode_associated_field(const Var& var) override;
 };
 
 }
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 78ef104..dcc093d 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -45,6 +45,11 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         ob.append_var(info, var);
     }
 
+    void define_bitmap(unsigned bitmap_size) override
+    {
+        throw error_unimplemented("data present bitmaps cannot be encoded in CREX");
+    }
+
     void check_code(Varinfo info, const Var& var)
     {
         if (var.code() != info->code)
-- 
2.43.0


From ac4f4371bb85318254abb0c5f9de6a59ffe7d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 50/99] fix: messages that are not found or cut short by what
 looks like their start or end mark

---
 wreport/bulletin.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 609ae21..1e3598d 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,10 +28,11 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // The character that does not match may be the start of the signature
+            got = c == sig[0] ? 1 : 0;
     }
 
-    if (errno != 0)
+    if (got != sig_len && ferror(fd))
     {
         if (fname)
             error_system::throwf("looking for start of %.4s data in %s:", sig, fname);
@@ -645,12 +646,15 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // The character that does not match may be part of another end of section
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
             buf += (char)c;
         }
-        if (ferror(fd))
+        if (got != target_size && ferror(fd))
         {
             if (fname)
                 error_system::throwf("cannot find end of CREX data in %s", fname);
-- 
2.43.0


From fc74a7ef7389d3fb74985cac070e3ccb94fccdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 51/99] fix: CREX bulletins that differ in the BUFR master
 table version are not the same

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 1e3598d..04f69c2 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -597,7 +597,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From b5feccc54dc268b03332a2048f27d44a0c199aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:29 +0000
Subject: [PATCH 52/99] fix: choice of tables depends on directory listing
 order and ignores local version 0

---
 wreport/internals/tabledir.cc |  6 +++++
 wreport/tableinfo.cc          | 45 ++++++++++++++++-------------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..da6fa7a 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -5,6 +5,7 @@
 #include "wreport/notes.h"
 #include "wreport/utils/sys.h"
 #include "config.h"
+#include <algorithm>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -120,6 +121,11 @@ void Dir::refresh()
                 break;
         }
     }
+    // The order of directory listings is arbitrary, and must not influence which
+    // one of equally good matches gets chosen
+    std::sort(tables.begin(), tables.end(), [](const Table* a, const Table* b) {
+        return a->btable_pathname < b->btable_pathname;
+    });
     mtime = st.st_mtime;
 }
 
diff --git a/wreport/tableinfo.cc b/wreport/tableinfo.cc
index bd94ebc..60a89a9 100644
--- a/wreport/tableinfo.cc
+++ b/wreport/tableinfo.cc
@@ -158,31 +158,28 @@ struct Compare
 
     bool compare_mt_local()
     {
-        if (base.master_table_version_number_local != 0)
-        {
-            if (first.master_table_version_number_local < base.master_table_version_number_local)
-                if (second.master_table_version_number_local < base.master_table_version_number_local)
-                {
-                    if (first.master_table_version_number_local < second.master_table_version_number_local)
-                        decide_second("closest match for local master table version number");
-                    if (first.master_table_version_number_local > second.master_table_version_number_local)
-                        decide_first("closest match for local master table version number");
-                }
-                else
-                    decide_second("valid candidate for local master table version number");
+        if (first.master_table_version_number_local < base.master_table_version_number_local)
+            if (second.master_table_version_number_local < base.master_table_version_number_local)
+            {
+                if (first.master_table_version_number_local < second.master_table_version_number_local)
+                    decide_second("closest match for local master table version number");
+                if (first.master_table_version_number_local > second.master_table_version_number_local)
+                    decide_first("closest match for local master table version number");
+            }
             else
-                if (second.master_table_version_number_local < base.master_table_version_number_local)
-                    decide_first("valid candidate for local master table version number");
-                else
-                {
-                    // Look for the closest match for the local table: they are
-                    // both >= the one we want, so pick the smallest
-                    if (first.master_table_version_number_local < second.master_table_version_number_local)
-                        decide_first("closest match for local master table version number");
-                    if (first.master_table_version_number_local > second.master_table_version_number_local)
-                        decide_second("closest match for local master table version number");
-                }
-        }
+                decide_second("valid candidate for local master table version number");
+        else
+            if (second.master_table_version_number_local < base.master_table_version_number_local)
+                decide_first("valid candidate for local master table version number");
+            else
+            {
+                // Look for the closest match for the local table: they are
+                // both >= the one we want, so pick the smallest
+                if (first.master_table_version_number_local < second.master_table_version_number_local)
+                    decide_first("closest match for local master table version number");
+                if (first.master_table_version_number_local > second.master_table_version_number_local)
+                    decide_second("closest match for local master table version number");
+            }
         return false;
     }
 };
-- 
2.43.0


From b9f8ed9d7f7905c3e60241c035ae62857b6aa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:34 +0000
Subject: [PATCH 53/99] fix: delayed replication counts with all bits set in
 compressed messages are not missing values

---
 wreport/bufr/input.cc | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 6781e41..15c7291 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -24,6 +24,23 @@ static inline uint32_t all_ones(int bitlen)
     return 0xffffffff >> (32 - (bitlen < 32 ? bitlen : 32));
 }
 
+// Check if the value has all bits set to 1, meaning that it is missing. In case
+// of delayed replications, there is no missing value
+static inline bool is_missing(wreport::Varinfo info, uint32_t val)
+{
+    switch (info->code)
+    {
+        case WR_VAR(0, 31, 0):
+        case WR_VAR(0, 31, 1):
+        case WR_VAR(0, 31, 2):
+        case WR_VAR(0, 31, 11):
+        case WR_VAR(0, 31, 12):
+            return false;
+        default:
+            return val == all_ones(info->bit_len);
+    }
+}
+
 }
 
 namespace wreport {
@@ -330,22 +347,7 @@ void Input::decode_number(Var& dest)
     // TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, val);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    // In case of delayed replications, there is no missing value
-    bool missing = false;
-    if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
-        switch (WR_VAR_Y(info->code))
-        {
-            case 0:
-            case 1:
-            case 2:
-            case 11:
-            case 12:
-                break;
-            default:
-                missing = (val == all_ones(info->bit_len));
-        }
-    else
-        missing = (val == all_ones(info->bit_len));
+    bool missing = is_missing(info, val);
 
     // TRACE("datasec:decode_b_num:len %d val %d info-len %d info-desc %s\n", info->bit_len, val, info->bit_len, info->desc);
 
@@ -491,7 +493,7 @@ void Input::decode_compressed_semantic_number(Var& dest, unsigned)
     //TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, base);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    bool missing = (base == all_ones(info->bit_len));
+    bool missing = is_missing(info, base);
 
     //TRACE("datasec:decode_b_num:len %d base %d info-len %d info-desc %s\n", info->bit_len, base, info->bit_len, info->desc);
 
-- 
2.43.0


From d16487b582963fa4740202a57ef84153b5e484ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:34 +0000
Subject: [PATCH 54/99] fix: character data with all bits set decodes as
 missing

---
 wreport/bufr/decoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 7a91fc3..c549719 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -359,18 +359,23 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 {
     std::string buf;
     buf.resize(info->len);
+    bool missing = true;
     TRACE("decode_c_data:character data %d long\n", info->len);
     for (unsigned i = 0; i < info->len; ++i)
     {
         uint32_t bitval = in.get_bits(8);
         TRACE("decode_c_data:decoded character %d %c\n", (int)bitval, (char)bitval);
         buf[i] = bitval;
+        if (bitval != 0xff)
+            missing = false;
     }
 
     // Add as C variable to the subset
 
     // Store the character data
-    Var cdata(info, buf);
+    Var cdata(info);
+    if (!missing)
+        cdata.sets(buf);
     out.store_variable(cdata);
 
     TRACE("decode_c_data:decoded string %s\n", buf.c_str());
-- 
2.43.0


From 4071aae5fc26aff4d8811e599ec0419e5fc27792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:52 +0000
Subject: [PATCH 55/99] fix: append_dpb marks the variables that the bitmap
 refers to

---
 wreport/subset.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index 4da72f1..ca1e7ae 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -88,8 +88,17 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
     size_t src, dst;
     size_t count = 0;
 
-    // Scan first 'size' variables checking for the presence of 'attr'
-    for (src = 0, dst = 0; src < this->size() && dst < size; ++dst, ++src)
+    // A bitmap refers to the last 'size' variables: skip those before them
+    size_t data_count = 0;
+    for (const auto& var: *this)
+        if (WR_VAR_F(var.code()) == 0)
+            ++data_count;
+    for (src = 0; data_count > size; ++src)
+        if (WR_VAR_F((*this)[src].code()) == 0)
+            --data_count;
+
+    // Scan 'size' variables checking for the presence of 'attr'
+    for (dst = 0; src < this->size() && dst < size; ++dst, ++src)
     {
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
-- 
2.43.0


From e6d8af7217a6268b0cd49e71ba4debc292b36a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:00 +0000
Subject: [PATCH 56/99] fix: spaces between CREX subsets are read as part of
 the first value

---
 wreport/crex_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 5743a4c..58cfe6a 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -218,6 +218,9 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+
+        // Skip the spaces before the first value of the next subset
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 32d8c8b0d414f872bd1659dee8e6b603345136fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:00 +0000
Subject: [PATCH 57/99] fix: values out of range encoded to CREX cannot be
 decoded

---
 wreport/buffers/crex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index 8697469..21e0eb7 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -257,7 +257,8 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
             int width = len;
             if (val < 0) ++width;
 
-            if (snprintf(nullptr, 0, "%0*d", width, val) > width)
+            // Values out of range cannot be decoded back
+            if (val < info->imin || val > info->imax || snprintf(nullptr, 0, "%0*d", width, val) > width)
                 error_consistency::throwf("cannot encode %01d%02d%03d %d to %d digits", WR_VAR_FXY(info->code), val, len);
 
             raw_appendf("%0*d", width, val);
-- 
2.43.0


From af3b5764b75c4eae848c04367138f6785025af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:43 +0000
Subject: [PATCH 58/99] fix: printing messages with C03 reference values for
 unknown elements

---
 wreport/bulletin/dds-printer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index 6cf2abc..2d91ffa 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -99,7 +99,7 @@ void DDSPrinter::define_c03_refval_override(Varcode code)
 {
     // The new reference value is not stored in the subset, except in the
     // variables that use it
-    int bit_ref = tables.btable->query(code)->bit_ref;
+    int bit_ref = tables.btable->contains(code) ? tables.btable->query(code)->bit_ref : 0;
     for (const auto& var: current_subset)
         if (var.code() == code)
         {
-- 
2.43.0


From 8304949c8d515a75f1d9ff8738569d632a40c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 59/99] fix: bitmaps of a different operator than the one in
 the data descriptors are encoded as if they matched

---
 wreport/bufr_encoder.cc       | 6 +++---
 wreport/bulletin/internals.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index e9da640..0d8d3df 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -77,9 +77,9 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_bitmap(unsigned bitmap_size) override
     {
         const Var& var = get_var();
-        if (WR_VAR_F(var.code()) != 2)
-            error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap",
-                    current_var-1, WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()));
+        if (var.code() != bitmaps.pending_definitions)
+            error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap for %01d%02d%03d",
+                    current_var-1, WR_VAR_FXY(var.code()), WR_VAR_FXY(bitmaps.pending_definitions));
         IFTRACE{
             TRACE("Encoding data present bitmap:");
             var.print(stderr);
diff --git a/wreport/bulletin/internals.cc b/wreport/bulletin/internals.cc
index 57a57f4..bf936b3 100644
--- a/wreport/bulletin/internals.cc
+++ b/wreport/bulletin/internals.cc
@@ -52,9 +52,9 @@ const Var& UncompressedEncoder::get_var(unsigned pos) const
 void UncompressedEncoder::define_bitmap(unsigned bitmap_size)
 {
     const Var& var = get_var();
-    if (WR_VAR_F(var.code()) != 2)
-        error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap",
-                current_var-1, WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()));
+    if (var.code() != bitmaps.pending_definitions)
+        error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap for %01d%02d%03d",
+                current_var-1, WR_VAR_FXY(var.code()), WR_VAR_FXY(bitmaps.pending_definitions));
     bitmaps.define(var, current_subset, current_var);
 }
 
-- 
2.43.0


From c873d171ef3f71af8317ba17a899f953a72c5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:26 +0000
Subject: [PATCH 60/99] fix: substituted values encoded with the description of
 the variable instead of that of its field

---
 wreport/bufr_encoder.cc           |  2 +-
 wreport/bulletin/dds-printer.cc   |  2 +-
 wreport/bulletin/dds-validator.cc |  2 +-
 wreport/bulletin/internals.cc     | 14 ++++++++++++--
 wreport/bulletin/internals.h      |  8 ++++++++
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 0d8d3df..e5a7f3a 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -35,7 +35,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_substituted_value(unsigned pos) override
     {
         // Use the details of the corrisponding variable for decoding
-        Varinfo info = current_subset[pos].info();
+        Varinfo info = get_field_info(pos);
         encode_attr(info, pos, info->code);
     }
 
diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index 2d91ffa..01a5900 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -115,7 +115,7 @@ void DDSPrinter::define_c03_refval_override(Varcode code)
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
-    Varinfo info = current_subset[pos].info();
+    Varinfo info = get_field_info(pos);
     print_attr(info, pos);
 }
 
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 8ae351c..ce11004 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -93,7 +93,7 @@ unsigned DDSValidator::define_associated_field_significance(Varinfo info)
 void DDSValidator::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
-    Varinfo info = current_subset[pos].info();
+    Varinfo info = get_field_info(pos);
     check_attr(info, pos);
 }
 
diff --git a/wreport/bulletin/internals.cc b/wreport/bulletin/internals.cc
index bf936b3..386ce94 100644
--- a/wreport/bulletin/internals.cc
+++ b/wreport/bulletin/internals.cc
@@ -23,7 +23,8 @@ namespace wreport {
 namespace bulletin {
 
 UncompressedEncoder::UncompressedEncoder(const Bulletin& bulletin, unsigned subset_no)
-    : Interpreter(bulletin.tables, bulletin.datadesc), current_subset(bulletin.subset(subset_no))
+    : Interpreter(bulletin.tables, bulletin.datadesc), current_subset(bulletin.subset(subset_no)),
+      field_infos(current_subset.size(), nullptr)
 {
 }
 
@@ -49,6 +50,12 @@ const Var& UncompressedEncoder::get_var(unsigned pos) const
     return current_subset[pos];
 }
 
+Varinfo UncompressedEncoder::get_field_info(unsigned pos) const
+{
+    const Var& var = get_var(pos);
+    return field_infos[pos] ? field_infos[pos] : var.info();
+}
+
 void UncompressedEncoder::define_bitmap(unsigned bitmap_size)
 {
     const Var& var = get_var();
@@ -69,12 +76,15 @@ void UncompressedEncoder::encode_associated_field(const Var& var)
 
 void UncompressedEncoder::define_variable(Varinfo info)
 {
-    encode_var(info, get_var());
+    const Var& var = get_var();
+    field_infos[current_var - 1] = info;
+    encode_var(info, var);
 }
 
 void UncompressedEncoder::define_variable_with_associated_field(Varinfo info)
 {
     const Var& var = get_var();
+    field_infos[current_var - 1] = info;
     encode_associated_field(var);
     encode_var(info, var);
 }
diff --git a/wreport/bulletin/internals.h b/wreport/bulletin/internals.h
index b7f2cbd..911f9c1 100644
--- a/wreport/bulletin/internals.h
+++ b/wreport/bulletin/internals.h
@@ -25,6 +25,8 @@ struct UncompressedEncoder : public bulletin::Interpreter
     const Subset& current_subset;
     /// Index of the next variable to be visited
     unsigned current_var = 0;
+    /// Description of the field that each variable in the subset goes in
+    std::vector<Varinfo> field_infos;
 
     UncompressedEncoder(const Bulletin& bulletin, unsigned subset_no);
     virtual ~UncompressedEncoder();
@@ -38,6 +40,12 @@ struct UncompressedEncoder : public bulletin::Interpreter
     /// Get the variable at the given position
     const Var& get_var(unsigned pos) const;
 
+    /**
+     * Get the description of the field where the variable at the given
+     * position was encoded
+     */
+    Varinfo get_field_info(unsigned pos) const;
+
     void define_bitmap(unsigned bitmap_size) override;
 
     void define_variable(Varinfo info) override;
-- 
2.43.0


From 828cd84cdc6b74059db5d87d084bcd80f69fc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:13 +0000
Subject: [PATCH 61/99] fix: table directories last modified at or before the
 epoch are ignored

Some systems set all the modification times to 0 or 1, and the tables installed
there were never found
---
 wreport/internals/tabledir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index da6fa7a..7d68efd 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -6,6 +6,7 @@
 #include "wreport/utils/sys.h"
 #include "config.h"
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -52,7 +53,7 @@ void CrexTable::print_id(FILE* out) const
 
 
 Dir::Dir(const std::string& pathname)
-    : pathname(pathname), mtime(0)
+    : pathname(pathname), mtime(std::numeric_limits<time_t>::min())
 {
     refresh();
 }
-- 
2.43.0


From 87c477acf6365624d60a2759a0c33f94219d8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:13 +0000
Subject: [PATCH 62/99] fix: use after free clearing a bulletin whose variables
 use descriptions of its tables

---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 04f69c2..9d91b23 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -68,9 +68,10 @@ void Bulletin::clear()
     update_sequence_number = 0;
     rep_year = 0;
     rep_month = rep_day = rep_hour = rep_minute = rep_second = 0;
-    tables.clear();
     datadesc.clear();
+    // Variables may use descriptions that belong to tables
     subsets.clear();
+    tables.clear();
 }
 
 Subset& Bulletin::obtain_subset(unsigned subsection)
-- 
2.43.0


From c9cc377e005cbffe3100a2375d72bf9b06157cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:13 +0000
Subject: [PATCH 63/99] fix: memory leaked by each thread that reads numeric
 values as strings

---
 wreport/var.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 6ad76e1..c48fa46 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -380,7 +380,7 @@ static inline std::string int32_to_stdstr(int32_t val)
 const char* Var::enqc() const
 {
     static const unsigned buf_size = 20;
-    static thread_local char* tl_buf = 0;
+    static thread_local char tl_buf[buf_size];
 
     if (!m_isset)
         error_notfound::throwf("enqc: %01d%02d%03d (%s) is not defined",
@@ -395,8 +395,6 @@ const char* Var::enqc() const
         case Vartype::Decimal: {
             // Access tl_buf just once, to prevent a lot of calls to __tls_get_addr
             char* buf = tl_buf;
-            if (!buf) buf = tl_buf = new char[buf_size];
-
             int32_to_str(m_value.i, buf, buf_size);
             return buf;
         }
-- 
2.43.0


From f8465c23fd2c7433e82b7665df73885e7c04a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 64/99] fix: Python objects that were not initialised, or were
 initialised twice, crash or leak

For example wreport.Var() with wrong arguments, or wreport.Varinfo.__new__()
---
 python/utils/type.h |  7 ++++++-
 python/var.cc       | 23 +++++++++++++----------
 python/varinfo.cc   |  7 +++++++
 python/vartable.cc  |  7 +++++++
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/python/utils/type.h b/python/utils/type.h
index 431570b..07748b6 100644
--- a/python/utils/type.h
+++ b/python/utils/type.h
@@ -163,6 +163,11 @@ struct Type
         return -1;
     }
 
+    static PyObject* _new(PyTypeObject* type, PyObject* args, PyObject* kw)
+    {
+        return PyType_GenericNew(type, args, kw);
+    }
+
     /**
      * Define this type in the python interpreter.
      *
@@ -225,7 +230,7 @@ struct Type
             0,                         // tp_dictoffset
             (initproc)Child::_init,    // tp_init
             0,                         // tp_alloc
-            PyType_GenericNew,         // tp_new
+            (newfunc)Child::_new,      // tp_new
             0,                         // tp_free
             0,                         // tp_is_gc
             0,                         // tp_bases
diff --git a/python/var.cc b/python/var.cc
index 02d2e10..8dcb294 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -384,6 +384,16 @@ representations.
     GetSetters<code, isset, info> getsetters;
     Methods<enqi, enqd, enqc, enq, enqa, seta, unseta, get_attrs, get, format> methods;
 
+    static PyObject* _new(PyTypeObject* type, PyObject* args, PyObject* kw)
+    {
+        // Always construct the variable, since _init can fail, or not be
+        // called at all, or be called more than once
+        Impl* self = (Impl*)type->tp_alloc(type, 0);
+        if (!self) return nullptr;
+        new (&self->var) Var(&dummy_var);
+        return (PyObject*)self;
+    }
+
     static int _init(Impl* self, PyObject* args, PyObject* kw)
     {
         static const char* kwlist[] = { "varinfo", "value", nullptr };
@@ -395,25 +405,18 @@ representations.
         try {
             if (wrpy_Varinfo_Check(varinfo_or_var))
             {
+                self->var = Var(((const wrpy_Varinfo*)varinfo_or_var)->info);
                 if (val == nullptr)
-                {
-                    new (&self->var) Var(((const wrpy_Varinfo*)varinfo_or_var)->info);
                     return 0;
-                }
-                else
-                {
-                    new (&self->var) Var(((const wrpy_Varinfo*)varinfo_or_var)->info);
-                    return var_value_from_python(val, self->var);
-                }
+                return var_value_from_python(val, self->var);
             }
             else if (wrpy_Var_Check(varinfo_or_var))
             {
-                new (&self->var) Var(((const wrpy_Var*)varinfo_or_var)->var);
+                self->var = ((const wrpy_Var*)varinfo_or_var)->var;
                 return 0;
             }
             else
             {
-                new (&self->var) Var(&dummy_var);
                 PyErr_SetString(PyExc_ValueError, "First argument to wreport.Var should be wreport.Varinfo or wreport.Var");
                 return -1;
             }
diff --git a/python/varinfo.cc b/python/varinfo.cc
index c70dc74..f4c3932 100644
--- a/python/varinfo.cc
+++ b/python/varinfo.cc
@@ -164,6 +164,13 @@ querying :class:`Vartable` objects.
         return PyUnicode_FromString(res.c_str());
     }
 
+    static PyObject* _new(PyTypeObject* type, PyObject* args, PyObject* kw)
+    {
+        // Objects that are not created by the library would refer to nothing
+        PyErr_SetString(PyExc_NotImplementedError, "Varinfo objects cannot be constructed explicitly");
+        return nullptr;
+    }
+
     static int _init(Impl* self, PyObject* args, PyObject* kw)
     {
         // People should not invoke Varinfo() as a constructor, but if they do,
diff --git a/python/vartable.cc b/python/vartable.cc
index 54c9ac8..d27032d 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -248,6 +248,13 @@ A Vartable is instantiated by one of the :meth:`get_bufr`, :meth:`get_crex`,
         return PyUnicode_FromFormat("Vartable('%s')", self->table->path().c_str());
     }
 
+    static PyObject* _new(PyTypeObject* type, PyObject* args, PyObject* kw)
+    {
+        // Objects that are not created by the library would refer to nothing
+        PyErr_SetString(PyExc_NotImplementedError, "Vartable objects cannot be constructed explicitly");
+        return nullptr;
+    }
+
     static int _init(Impl* self, PyObject* args, PyObject* kw)
     {
         // People should not invoke Varinfo() as a constructor, but if they do,
-- 
2.43.0


From 0d44037e4a8f243dd545db28ab53a0c3aeda3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 65/99] fix: Python integers that are too large are truncated
 when set in a variable

---
 python/var.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 8dcb294..6d6af39 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -4,6 +4,7 @@
 #include "utils/type.h"
 #include "utils/methods.h"
 #include "utils/values.h"
+#include <climits>
 
 using namespace std;
 using namespace wreport::python;
@@ -524,7 +525,15 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
     try {
         if (PyLong_Check(o))
         {
-            var.seti(PyLong_AsLong(o));
+            long val = PyLong_AsLong(o);
+            if (val == -1 && PyErr_Occurred())
+                return -1;
+            if (val < INT_MIN || val > INT_MAX)
+            {
+                PyErr_SetString(PyExc_OverflowError, "Value does not fit in an integer");
+                return -1;
+            }
+            var.seti(static_cast<int>(val));
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-- 
2.43.0


From 8141ed607ddcf4db6cde33e502a5af1b5ada4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 66/99] fix: binary values are read past the end of Python
 bytes, or cut at their first zero

---
 python/var.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/var.cc b/python/var.cc
index 6d6af39..d4a87ef 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -510,7 +510,10 @@ PyObject* var_value_to_python(const wreport::Var& v)
             case Vartype::String:
                 return PyUnicode_FromString(v.enqc());
             case Vartype::Binary:
-                return PyBytes_FromString(v.enqc());
+            {
+                std::string val = v.enqs();
+                return PyBytes_FromStringAndSize(val.data(), val.size());
+            }
             case Vartype::Integer:
                 return PyLong_FromLong(v.enqi());
             case Vartype::Decimal:
@@ -537,7 +540,7 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-            var.setc(PyBytes_AsString(o));
+            var.sets(std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)));
         } else if (PyUnicode_Check(o)) {
             var.sets(from_python<std::string>(o));
         } else {
-- 
2.43.0


From ba99a4246db6e4c52e705ebbd9cc629d0c1086b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 67/99] fix: leak reporting Python values of the wrong type

---
 python/common.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/common.cc b/python/common.cc
index 96716e2..fc320e4 100644
--- a/python/common.cc
+++ b/python/common.cc
@@ -132,7 +132,8 @@ PyObject* file_get_data(PyObject* o, char*&buf, Py_ssize_t& len)
 
 std::string object_repr(PyObject* o)
 {
-    return from_python<std::string>(throw_ifnull(PyObject_Repr(o)));
+    pyo_unique_ptr repr(throw_ifnull(PyObject_Repr(o)));
+    return from_python<std::string>(repr);
 }
 
 }
-- 
2.43.0


From 70df6f07011c81162cf16968796261fbdb688201 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 68/99] fix: Vartable.load_bufr and load_crex do not accept
 their argument as a keyword

---
 python/vartable.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index d27032d..f35ed5d 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -48,8 +48,9 @@ wreport.Vartable.
 
     static PyObject* run(PyTypeObject* cls, PyObject* args, PyObject* kw)
     {
+        static const char* kwlist[] = { "pathname", nullptr };
         const char* pathname;
-        if (!PyArg_ParseTuple(args, "s", &pathname))
+        if (!PyArg_ParseTupleAndKeywords(args, kw, "s", const_cast<char**>(kwlist), &pathname))
             return nullptr;
 
         try {
@@ -72,8 +73,9 @@ wreport.Vartable.
 
     static PyObject* run(PyTypeObject* cls, PyObject* args, PyObject* kw)
     {
+        static const char* kwlist[] = { "pathname", nullptr };
         const char* pathname;
-        if (!PyArg_ParseTuple(args, "s", &pathname))
+        if (!PyArg_ParseTupleAndKeywords(args, kw, "s", const_cast<char**>(kwlist), &pathname))
             return nullptr;
 
         try {
-- 
2.43.0


From 8de0d6a3bf931062e810903b5dfca116f685b034 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 69/99] fix: iterating a Python Vartable never ends

---
 python/vartable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index f35ed5d..b57c818 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -273,7 +273,9 @@ A Vartable is instantiated by one of the :meth:`get_bufr`, :meth:`get_crex`,
 
     static PyObject* sq_item(Impl* self, Py_ssize_t i)
     {
-        Py_RETURN_NONE;
+        // Consistently with sq_length
+        PyErr_SetString(PyExc_IndexError, "table index out of range");
+        return nullptr;
     }
 
     static int sq_contains(Impl* self, PyObject *value)
-- 
2.43.0


From 8714f323070ff46c5a3beace8ce36c9e71995f8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:56:08 +0000
Subject: [PATCH 70/99] fix: wrep -p and -h

The short options were parsed as if -h had an argument and -p had none
---
 src/wrep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index c1f8ede..38c8f6a 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -89,10 +89,10 @@ int main(int argc, char* argv[])
         int option_index = 0;
 
 #ifdef HAS_GETOPT_LONG
-        int c = getopt_long(argc, argv, "cdsDpivtUTFLh:",
+        int c = getopt_long(argc, argv, "cdsDp:ivtUTFLh",
                 long_options, &option_index);
 #else
-        int c = getopt(argc, argv, "cdsDpivtUTFLh:");
+        int c = getopt(argc, argv, "cdsDp:ivtUTFLh");
 #endif
 
         // Detect the end of the options
-- 
2.43.0


From b5cb5c961ccc6788924621b95ef633132c267e66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 71/99] fix: wrep aborts when a variable code is not valid

---
 src/wrep.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index 38c8f6a..73ba024 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -109,7 +109,12 @@ int main(int argc, char* argv[])
             case 'D': options.action = DUMP_DDS; break;
             case 'p':
                 options.action = PRINT_VARS;
-                options.init_varcodes(optarg);
+                try {
+                    options.init_varcodes(optarg);
+                } catch (std::exception& e) {
+                    fprintf(stderr, "%s\n", e.what());
+                    return 1;
+                }
                 break;
             case 'i': options.action = INFO; break;
             case 'U': options.action = UNPARSABLE; break;
-- 
2.43.0


From 927eb0c93e65b37f1f8510f15e63557c48c85f4b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:08:03 +0000
Subject: [PATCH 72/99] fix: memory leaked by errors raised in Lua

lua_error was called with the exception still being handled, and as it does
not return, the exception was never released
---
 wreport/var-lua.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/wreport/var-lua.cc b/wreport/var-lua.cc
index d0a0650..4917c84 100644
--- a/wreport/var-lua.cc
+++ b/wreport/var-lua.cc
@@ -41,6 +41,7 @@ const Var* Var::lua_const_check(lua_State* L, int idx)
 static int dbalua_var_enqi(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushinteger(L, var->enqi());
@@ -48,14 +49,18 @@ static int dbalua_var_enqi(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: raise it when the exception has been released
+	if (failed)
+		lua_error(L);
 	return 1;
 }
 
 static int dbalua_var_enqd(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushnumber(L, var->enqd());
@@ -63,14 +68,18 @@ static int dbalua_var_enqd(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: raise it when the exception has been released
+	if (failed)
+		lua_error(L);
 	return 1;
 }
 
 static int dbalua_var_enqc(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushstring(L, var->enqc());
@@ -78,8 +87,11 @@ static int dbalua_var_enqc(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: raise it when the exception has been released
+	if (failed)
+		lua_error(L);
 	return 1;
 }
 
@@ -96,13 +108,17 @@ static int dbalua_var_code(lua_State *L)
 static int dbalua_var_tostring(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         std::string formatted = var->format("(undef)");
         lua_pushlstring(L, formatted.data(), formatted.size());
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: raise it when the exception has been released
+	if (failed)
+		lua_error(L);
 	return 1;
 }
 
-- 
2.43.0


From 3eb6dc23f448432e9aa7484bef3509eb712a616d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:08:12 +0000
Subject: [PATCH 73/99] fix: binary values are cut at their first zero byte
 when read from Lua

---
 wreport/var-lua.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wreport/var-lua.cc b/wreport/var-lua.cc
index 4917c84..ae92f13 100644
--- a/wreport/var-lua.cc
+++ b/wreport/var-lua.cc
@@ -82,8 +82,11 @@ static int dbalua_var_enqc(lua_State *L)
     bool failed = false;
     try {
         if (var->isset())
-            lua_pushstring(L, var->enqc());
-        else
+        {
+            // Binary data can contain zeros
+            std::string val = var->enqs();
+            lua_pushlstring(L, val.data(), val.size());
+        } else
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-- 
2.43.0


From 7f23314577e4ebe38702c8be1fdfaf992ac98be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:33 +0000
Subject: [PATCH 74/99] fix: wrep-importtable exits with success when it fails

---
 src/wrep-importtable | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrep-importtable b/src/wrep-importtable
index bbd31af..b7488a2 100755
--- a/src/wrep-importtable
+++ b/src/wrep-importtable
@@ -309,3 +309,4 @@ if __name__ == "__main__":
         sys.exit(1)
     except Exception:
         log.exception("uncaught exception")
+        sys.exit(1)
-- 
2.43.0


From 47afe75418d1b50f15a326efbc483bd48a3863e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:33 +0000
Subject: [PATCH 75/99] fix: tables of a bulletin are half changed when loading
 new ones fails

---
 wreport/tables.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index e804296..8c02143 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -59,8 +59,10 @@ void Tables::load_bufr(const BufrTableID& id)
                 id.originating_centre, id.originating_subcentre,
                 id.master_table_number, id.master_table_version_number,
                 id.master_table_version_number_local);
-    btable = Vartable::load_bufr(t->btable_pathname);
+    // Change the tables only once both have been loaded
+    auto new_btable = Vartable::load_bufr(t->btable_pathname);
     dtable = DTable::load_bufr(t->dtable_pathname);
+    btable = new_btable;
 }
 
 void Tables::load_crex(const CrexTableID& id)
@@ -72,8 +74,10 @@ void Tables::load_crex(const CrexTableID& id)
                 id.originating_centre, id.originating_subcentre,
                 id.master_table_number, id.master_table_version_number,
                 id.master_table_version_number_local, id.master_table_version_number_bufr);
-    btable = Vartable::load_crex(t->btable_pathname);
+    // Change the tables only once both have been loaded
+    auto new_btable = Vartable::load_crex(t->btable_pathname);
     dtable = DTable::load_crex(t->dtable_pathname);
+    btable = new_btable;
 }
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
-- 
2.43.0


From 39fde9573aeb20dbc9c73a7bfd902176d1718377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:10 +0000
Subject: [PATCH 76/99] fix: encode C03 reference values of elements also used
 before the change

The encoder looked for the new reference value in the whole subset, and found
the one of variables that precede the definition. Messages that use an element
both before and after changing its reference value, or that change it more than
once, were encoded with a wrong reference value or could not be encoded.
---
 wreport/bufr_encoder.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index e5a7f3a..a9122a9 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -111,13 +111,14 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
-        // is its bit_ref
+        // Scan the rest of the subset looking for a variables with the given
+        // code, to see what is its bit_ref. Variables that were already
+        // encoded do not matter, since they precede the new definition
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (unsigned i = current_var; i < current_subset.size(); ++i)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[i].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
-- 
2.43.0


From 4b0f1926867e2db8007ba23e17e521bc06767129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 77/99] fix: crash asking what remains at the end of a split

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index beffd21..57c29b8 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -224,7 +224,7 @@ Split::const_iterator::~const_iterator()
 
 std::string Split::const_iterator::remainder() const
 {
-    if (end == std::string::npos)
+    if (!split || end == std::string::npos)
         return std::string();
     else
         return split->str.substr(end);
-- 
2.43.0


From 0cbbb8bb5de491f3608b3747c312be9398410057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 78/99] fix: an empty token when splitting only separators and
 skipping empty tokens

---
 wreport/utils/string.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 57c29b8..b19c77e 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -214,7 +214,11 @@ Split::const_iterator::const_iterator(const Split& split_)
     {
         // Ignore leading separators if skip_end is true
         if (split_.skip_empty) skip_separators();
-        ++*this;
+        if (split_.skip_empty && end == split_.str.size())
+            // There were only separators
+            this->split = nullptr;
+        else
+            ++*this;
     }
 }
 
-- 
2.43.0


From 7aa660c162f5870d63dd459d968383630a67fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 79/99] fix: endless loop splitting characters and skipping
 empty tokens

---
 wreport/utils/string.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index b19c77e..c6b8f31 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -239,6 +239,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // There is nothing to skip, when splitting one character at a time
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
-- 
2.43.0


From be1e178a4e5b30ec166bd6689e0ae3021e5865d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 80/99] fix: normpath crashes on relative paths that go above
 their start

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index c6b8f31..9761cce 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From b68f8a645aa68446935935ff05466d406a76e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 81/99] fix: decode_cstring gives a zero byte for all \x
 sequences

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 9761cce..b621b8d 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -396,7 +396,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 5984910aa7f377d455272384dd4a0ff1eb2a10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 82/99] fix: decode_url reads past the end of strings shorter
 than two characters

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index b621b8d..042102d 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -438,7 +438,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From 4e14755d2f818cf8411f8191aa12ed5fdaab9313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 83/99] fix: out of bounds access decoding '{' as base64

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 042102d..1ac368f 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -456,7 +456,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 03a44c77063ee2f8243585dc56e137589e6063e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 84/99] fix: file descriptors are closed twice when closing
 them fails

---
 wreport/utils/sys.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index cc6c8aa..a2555f5 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -293,9 +293,11 @@ bool FileDescriptor::is_open() const { return fd != -1; }
 void FileDescriptor::close()
 {
     if (fd == -1) return;
-    if (::close(fd) == -1)
-        throw_error("cannot close");
+    // The file descriptor is gone even if close reports an error
+    int res = ::close(fd);
     fd = -1;
+    if (res == -1)
+        throw_error("cannot close");
 }
 
 void FileDescriptor::fstat(struct stat& st)
-- 
2.43.0


From 3ec4c429a77a446c9e18e83e3416ed5f7d55c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 85/99] fix: cannot assign to an MMap that has been moved from
 or unmapped

---
 wreport/utils/sys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index a2555f5..0d4731c 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -244,7 +244,7 @@ MMap& MMap::operator=(MMap&& o)
 {
     if (this == &o) return *this;
 
-    munmap();
+    if (addr != MAP_FAILED) munmap();
     addr = o.addr;
     length = o.length;
     o.addr = MAP_FAILED;
-- 
2.43.0


From c6af09d71cbc3043f3d1c710c406f1d8d244cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 86/99] fix: directory iterators lose their path when they are
 moved

---
 wreport/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/sys.h b/wreport/utils/sys.h
index 9a0edf9..25a11f2 100644
--- a/wreport/utils/sys.h
+++ b/wreport/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From e440dfd6c5d182bb633b86a3609a11ba52d92876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 87/99] fix: file descriptor leaked when fdopendir fails

---
 wreport/utils/sys.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 0d4731c..f63953c 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -593,7 +593,12 @@ DIR* Path::fdopendir()
 
     DIR* res = ::fdopendir(fd1);
     if (!res)
+    {
+        int saved_errno = errno;
+        ::close(fd1);
+        errno = saved_errno;
         throw_error("cannot fdopendir");
+    }
 
     return res;
 }
-- 
2.43.0


From df616452c7fb8e67c720b9872320dff5282a30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 88/99] fix: directory left open when reading its first entry
 fails

---
 wreport/utils/sys.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index f63953c..174a0da 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -752,13 +752,16 @@ Path::iterator& Path::iterator::operator++()
     cur_entry = readdir(dir);
     if (cur_entry == nullptr)
     {
-        if (errno) path->throw_error("cannot readdir");
+        int saved_errno = errno;
 
         // Turn into an end iterator
         free(cur_entry);
         cur_entry = nullptr;
         closedir(dir);
         dir = nullptr;
+
+        errno = saved_errno;
+        if (errno) path->throw_error("cannot readdir");
     }
     return *this;
 }
-- 
2.43.0


From 7fd779169d43afb6fbe139157a03fbb2c4e611d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 89/99] fix: links to directories are followed by rmtree on
 file systems without d_type

---
 wreport/utils/sys.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 174a0da..9719d69 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -776,7 +776,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -790,7 +790,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -804,7 +804,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -818,7 +818,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -831,7 +831,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -844,7 +844,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -857,7 +857,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
-- 
2.43.0


From 31d4fc4ce8aa790e70ea86caaa3450231dd82c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 90/99] fix: sys::islnk is always false

---
 wreport/utils/sys.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 9719d69..74dde9e 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -100,9 +100,9 @@ void stat(const std::filesystem::path& path, struct stat& st)
         throw std::system_error(errno, std::system_category(), "cannot stat " + path.native());
 }
 
-#define common_stat_body(testfunc) \
+#define common_stat_body(statfunc, testfunc) \
     struct stat st; \
-    if (::stat(pathname.c_str(), &st) == -1) { \
+    if (statfunc(pathname.c_str(), &st) == -1) { \
         if (errno == ENOENT) \
             return false; \
         else \
@@ -112,37 +112,37 @@ void stat(const std::filesystem::path& path, struct stat& st)
 
 bool isdir(const std::string& pathname)
 {
-    common_stat_body(S_ISDIR);
+    common_stat_body(::stat, S_ISDIR);
 }
 
 bool isblk(const std::string& pathname)
 {
-    common_stat_body(S_ISBLK);
+    common_stat_body(::stat, S_ISBLK);
 }
 
 bool ischr(const std::string& pathname)
 {
-    common_stat_body(S_ISCHR);
+    common_stat_body(::stat, S_ISCHR);
 }
 
 bool isfifo(const std::string& pathname)
 {
-    common_stat_body(S_ISFIFO);
+    common_stat_body(::stat, S_ISFIFO);
 }
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    common_stat_body(::lstat, S_ISLNK);
 }
 
 bool isreg(const std::string& pathname)
 {
-    common_stat_body(S_ISREG);
+    common_stat_body(::stat, S_ISREG);
 }
 
 bool issock(const std::string& pathname)
 {
-    common_stat_body(S_ISSOCK);
+    common_stat_body(::stat, S_ISSOCK);
 }
 
 #undef common_stat_body
-- 
2.43.0


From a69335cbfd1b5769a9befaf146f81117d5e5eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 91/99] fix: program terminated when a temporary file cannot be
 deleted

---
 wreport/utils/sys.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 74dde9e..7255c10 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -1004,7 +1004,11 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        // Destructors cannot report errors
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
-- 
2.43.0


From 68b288bfa35895bc20a363163f704fc4630d6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 92/99] fix: write_file_atomically leaves its temporary file
 behind when it fails

---
 wreport/utils/sys.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 7255c10..d40138b 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -1129,18 +1129,24 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
-
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
-
-    out.write_all_or_retry(data, size);
-    out.close();
-
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    try {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
+
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
+
+        out.write_all_or_retry(data, size);
+        out.close();
+
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    } catch (...) {
+        // Do not leave the temporary file behind
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 24a056bdb50e69e491b274a82f42a38c31a744ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 93/99] fix: redirect the streams of a child process also to
 standard or repeated file descriptors

---
 wreport/utils/subprocess.cc | 152 +++++++++++++++++++++---------------
 1 file changed, 90 insertions(+), 62 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 6f7cf72..00baf3a 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -200,6 +200,36 @@ void Child::post_fork_parent()
     }
 }
 
+/**
+ * Return a copy of fd that does not overlap the standard file descriptors.
+ *
+ * This is so that a redirection does not clobber the source of another one, and
+ * that the same file descriptor can be the source of more than one.
+ */
+static int copy_source(int fd, const char* errmsg)
+{
+    int res = fcntl(fd, F_DUPFD, STDERR_FILENO + 1);
+    if (res == -1)
+        throw std::system_error(errno, std::system_category(), errmsg);
+    return res;
+}
+
+static int move_source(int fd, const char* errmsg)
+{
+    int res = copy_source(fd, errmsg);
+    if (close(fd) == -1)
+        throw std::system_error(errno, std::system_category(), errmsg);
+    return res;
+}
+
+static int open_devnull(const char* errmsg)
+{
+    int fd = open("/dev/null", O_RDWR);
+    if (fd == -1)
+        throw std::system_error(errno, std::system_category(), errmsg);
+    return move_source(fd, errmsg);
+}
+
 static void redirect(int newfd, int oldfd, const char* errmsg)
 {
     if (dup2(newfd, oldfd) == -1)
@@ -210,73 +240,71 @@ static void redirect(int newfd, int oldfd, const char* errmsg)
 
 void Child::post_fork_child()
 {
-    {
-        sys::File fd_devnull("/dev/null");
+    int new_stdin = -1;
+    int new_stdout = -1;
+    int new_stderr = -1;
 
-        switch (m_stdin_action)
-        {
-            case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stdin[1]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close write end of stdin pipe in child process");
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDIN_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin to /dev/null");
-                break;
-            default:
-                break;
-        }
+    switch (m_stdin_action)
+    {
+        case Redirect::FD:
+            new_stdin = copy_source(m_stdin[0], "failed to redirect stdin");
+            break;
+        case Redirect::PIPE:
+            if (close(m_stdin[1]) == -1)
+                throw std::system_error(errno, std::system_category(), "failed close write end of stdin pipe in child process");
+            new_stdin = move_source(m_stdin[0], "failed to redirect stdin");
+            break;
+        case Redirect::DEVNULL:
+            new_stdin = open_devnull("failed to redirect stdin to /dev/null");
+            break;
+        default:
+            break;
+    }
 
-        switch (m_stdout_action)
-        {
-            case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stdout[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in child process");
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDOUT_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout to /dev/null");
-                break;
-            default:
-                break;
-        }
+    switch (m_stdout_action)
+    {
+        case Redirect::FD:
+            new_stdout = copy_source(m_stdout[1], "failed to redirect stdout");
+            break;
+        case Redirect::PIPE:
+            if (close(m_stdout[0]) == -1)
+                throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in child process");
+            new_stdout = move_source(m_stdout[1], "failed to redirect stdout");
+            break;
+        case Redirect::DEVNULL:
+            new_stdout = open_devnull("failed to redirect stdout to /dev/null");
+            break;
+        default:
+            break;
+    }
 
-        switch (m_stderr_action)
-        {
-            case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stderr[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in child process");
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to /dev/null");
-                break;
-            case Redirect::STDOUT:
-                if (dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
-            default:
-                break;
-        }
+    switch (m_stderr_action)
+    {
+        case Redirect::FD:
+            new_stderr = copy_source(m_stderr[1], "failed to redirect stderr");
+            break;
+        case Redirect::PIPE:
+            if (close(m_stderr[0]) == -1)
+                throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in child process");
+            new_stderr = move_source(m_stderr[1], "failed to redirect stderr");
+            break;
+        case Redirect::DEVNULL:
+            new_stderr = open_devnull("failed to redirect stderr to /dev/null");
+            break;
+        default:
+            break;
     }
 
+    if (new_stdin != -1)
+        redirect(new_stdin, STDIN_FILENO, "failed to redirect stdin");
+    if (new_stdout != -1)
+        redirect(new_stdout, STDOUT_FILENO, "failed to redirect stdout");
+    if (new_stderr != -1)
+        redirect(new_stderr, STDERR_FILENO, "failed to redirect stderr");
+    if (m_stderr_action == Redirect::STDOUT)
+        if (dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
+            throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
+
     // Close parent file descriptors if requested
     if (close_fds)
     {
-- 
2.43.0


From 39dd07524aa3b69c99650cf76e99f4aa7a97e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 94/99] fix: do not leak the pipes of a child process that
 could not be started

---
 wreport/utils/subprocess.cc | 33 ++++++++++++++++++++++++++++++---
 wreport/utils/subprocess.h  |  3 +++
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 00baf3a..3329bcc 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -96,6 +96,7 @@ void Child::set_stdin(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdin[0] = m_stdin[1] = -1;
     m_stdin_action = val;
 }
 
@@ -103,6 +104,7 @@ void Child::set_stdout(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdout[0] = m_stdout[1] = -1;
     m_stdout_action = val;
 }
 
@@ -110,6 +112,7 @@ void Child::set_stderr(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stderr after the child process has started");
+    m_stderr[0] = m_stderr[1] = -1;
     m_stderr_action = val;
 }
 
@@ -164,6 +167,22 @@ void Child::pre_fork()
     }
 }
 
+static void close_pipe(int (&fds)[2])
+{
+    for (auto& fd: fds)
+    {
+        if (fd != -1) ::close(fd);
+        fd = -1;
+    }
+}
+
+void Child::close_pipes()
+{
+    if (m_stdin_action == Redirect::PIPE) close_pipe(m_stdin);
+    if (m_stdout_action == Redirect::PIPE) close_pipe(m_stdout);
+    if (m_stderr_action == Redirect::PIPE) close_pipe(m_stderr);
+}
+
 void Child::post_fork_parent()
 {
     switch (m_stdin_action)
@@ -340,9 +359,15 @@ void Child::fork()
     if (!pass_fds.empty())
         close_fds = true;
 
-    pre_fork();
-
     pid_t pid;
+
+    try {
+        pre_fork();
+    } catch (...) {
+        close_pipes();
+        throw;
+    }
+
     if ((pid = ::fork()) == 0)
     {
         try {
@@ -356,7 +381,9 @@ void Child::fork()
         }
         _exit(main());
     } else if (pid < 0) {
-        throw std::system_error(errno, std::system_category(), "failed to fork()");
+        int fork_errno = errno;
+        close_pipes();
+        throw std::system_error(fork_errno, std::system_category(), "failed to fork()");
     } else {
         m_pid = pid;
         post_fork_parent();
diff --git a/wreport/utils/subprocess.h b/wreport/utils/subprocess.h
index 871dfd2..682482f 100644
--- a/wreport/utils/subprocess.h
+++ b/wreport/utils/subprocess.h
@@ -45,6 +45,9 @@ protected:
     /// Function called before forking
     virtual void pre_fork();
 
+    /// Close all the pipes created by pre_fork
+    void close_pipes();
+
     /// Function called after fork in the parent process
     virtual void post_fork_parent();
 
-- 
2.43.0


From a4aabc8cdf1d4870030b79a58c8e64976bf1b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 95/99] fix: waiting with a timeout for a process known to be
 terminated returned its exit code as a boolean

---
 wreport/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 3329bcc..9940ae9 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -465,7 +465,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From cfcfae898062b54f05a3e99506704e89e534f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 96/99] fix: signaling a child process that is not running
 signaled other processes

---
 wreport/utils/subprocess.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 9940ae9..5da5dd2 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -512,6 +512,15 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("send_signal called before Child process was started");
+
+    // The PID of a process that has been waited for can be reused by another one
+    if (m_terminated)
+        throw std::system_error(
+                ESRCH, std::system_category(),
+                "cannot send signal " + std::to_string(sig) + " to child PID " + std::to_string(m_pid));
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 809116de5df9767776072067ab672caead00eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 97/99] fix: waiting for a child process with a timeout lost
 flags and mask of the handler of SIGCHLD

---
 wreport/utils/subprocess.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 5da5dd2..48d89f8 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -436,12 +436,15 @@ namespace {
 
 struct enable_sigchld
 {
-    sighandler_t prev_handler;
+    struct sigaction prev_action;
 
     enable_sigchld()
-        : prev_handler(signal(SIGCHLD, empty_handler))
     {
-        if (prev_handler == SIG_ERR)
+        struct sigaction action;
+        memset(&action, 0, sizeof(action));
+        action.sa_handler = empty_handler;
+        sigemptyset(&action.sa_mask);
+        if (sigaction(SIGCHLD, &action, &prev_action) == -1)
             throw std::system_error(
                     errno, std::system_category(),
                     "failed set signal handler for SIGCHLD");
@@ -449,7 +452,7 @@ struct enable_sigchld
 
     ~enable_sigchld()
     {
-        signal(SIGCHLD, prev_handler);
+        sigaction(SIGCHLD, &prev_action, nullptr);
     }
 
     static void empty_handler(int)
-- 
2.43.0


From 9312af9a02f06bfa9df10778c4f38753e6600417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 98/99] fix: background colours that are not bright were set as
 foreground colours

---
 wreport/utils/term.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/term.cc b/wreport/utils/term.cc
index 96f83d6..f33c4d1 100644
--- a/wreport/utils/term.cc
+++ b/wreport/utils/term.cc
@@ -82,7 +82,7 @@ struct SGR
         {
             append(99 + (col & color_mask));
         } else if (col & color_mask) {
-            append(89 + (col & color_mask));
+            append(39 + (col & color_mask));
         }
     }
 };
-- 
2.43.0


From c3cd38d90b156ed12b02b3712a99095bb4ff2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:26 +0000
Subject: [PATCH 99/99] fix: validation of C03 reference values of elements
 also used before the change

---
 wreport/bulletin/dds-validator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index ce11004..4854843 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -116,13 +116,13 @@ void DDSValidator::define_c03_refval_override(Varcode code)
 {
     check_not_crex("reference value change");
 
-    // Scan the subset looking for a variables with the given code, to see what
-    // is its bit_ref
+    // Scan the rest of the subset looking for a variables with the given code,
+    // to see what is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (unsigned i = current_var; i < current_subset.size(); ++i)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[i].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
-- 
2.43.0

