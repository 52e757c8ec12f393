From 143afe1e5f3d614349d8e69f46f877c11d7aa701 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 01/72] fix: String::remove_prefix clamps its argument to the
 string length

---
 include/Xsmp/String.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..cba7865 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -167,11 +167,11 @@ template <std::size_t Nm> struct String {
   }
 
   constexpr void remove_prefix(size_t length) {
-    auto newLength = this->length();
-    std::copy(internalString + length, internalString + newLength,
+    const auto currentLength = this->length();
+    const auto removed = std::min(length, currentLength);
+    std::copy(internalString + removed, internalString + currentLength,
               internalString);
-    newLength -= length;
-    internalString[newLength] = '\0';
+    internalString[currentLength - removed] = '\0';
   }
 
   constexpr void remove_suffix(size_t length) noexcept {
-- 
2.43.0


From d71bb20c492afdc45513fcb71b181e49bb39dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 02/72] fix: String::assign supports a source that overlaps the
 string

---
 include/Xsmp/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index cba7865..643ae3a 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -319,7 +319,8 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    // str may be a part of this string
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From a854ad46bef12a77cabc13dc4a258e0819dfb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 03/72] fix: make the free swap of two Strings usable

---
 include/Xsmp/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 643ae3a..93f2651 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -491,9 +491,9 @@ private:
   }
 };
 
-template <std::size_t Nm, std::size_t Nm2>
-constexpr void swap(const String<Nm> &lhs, const String<Nm2> &rhs) noexcept {
-  rhs.swap(lhs);
+template <std::size_t Nm>
+constexpr void swap(String<Nm> &lhs, String<Nm> &rhs) noexcept {
+  lhs.swap(rhs);
 }
 
 template <std::size_t Nm>
-- 
2.43.0


From fba3686f504fd8363da1fc05759da4cea895c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 04/72] fix: Array.h includes the header of the algorithms it
 uses

---
 include/Xsmp/Array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Xsmp/Array.h b/include/Xsmp/Array.h
index 86009d9..db96508 100644
--- a/include/Xsmp/Array.h
+++ b/include/Xsmp/Array.h
@@ -15,6 +15,7 @@
 #ifndef XSMP_ARRAY_H_
 #define XSMP_ARRAY_H_
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
-- 
2.43.0


From 21d368af7caa6efb4fbdae81d3858641128d61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 05/72] fix: cstring self-assignment, self-move and copy of a
 moved-from object

---
 src/Xsmp/cstring.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..eddf6e3 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -39,19 +39,24 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+// a moved-from cstring holds a null value
+cstring::cstring(const cstring &other)
+    : _value{other._value ? copy(other._value) : nullptr} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
+    const auto *newValue = other._value ? copy(other._value) : nullptr;
     delete[] _value;
-    _value = copy(other.c_str());
+    _value = newValue;
   }
   return *this;
 }
 
 cstring &cstring::operator=(const char *value) {
+  // copy before releasing: value may point into the current buffer
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
@@ -61,9 +66,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 7d5025eda7444ca598c39ca66498fd133c922612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 06/72] fix: conversion of the greatest integers to floating
 point in AnySimple is well defined

---
 src/Smp/AnySimple.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..d1c4bc6 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <limits>
 #include <string>
+#include <type_traits>
 
 namespace Smp {
 
@@ -100,11 +101,21 @@ template <typename T, typename U>
 T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
                ::Smp::PrimitiveTypeKind expected) {
 
-  if (std::fabs(newValue - static_cast<U>(static_cast<T>(newValue))) >
-      std::numeric_limits<U>::epsilon()) {
+  const auto result = static_cast<T>(newValue);
+  bool valid;
+  if constexpr (std::is_integral_v<U>) {
+    // the greatest integers may be rounded up to a value that is not
+    // representable in U
+    valid = result < std::ldexp(T{1}, std::numeric_limits<U>::digits) &&
+            static_cast<U>(result) == newValue;
+  } else {
+    valid = !(std::fabs(newValue - static_cast<U>(result)) >
+              std::numeric_limits<U>::epsilon());
+  }
+  if (!valid) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
   }
-  return static_cast<T>(newValue);
+  return result;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
-- 
2.43.0


From 646ebd1fa126f28bb6fc61946fbc34f29a52cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 07/72] fix: a refused AnySimple::SetValue keeps the previous
 string

---
 src/Smp/AnySimple.cpp | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index d1c4bc6..c8e9c50 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -31,6 +31,12 @@ inline void _releaseContent(::Smp::AnySimple *any) {
     any->value.string8Value = nullptr;
   }
 }
+/// The string owned by any, to be deleted once it has been replaced
+inline ::Smp::String8 _getContent(const ::Smp::AnySimple *any) {
+  return any->type == ::Smp::PrimitiveTypeKind::PTK_String8
+             ? any->value.string8Value
+             : nullptr;
+}
 } // namespace
 
 AnySimple::AnySimple() : AnySimple(PrimitiveTypeKind::PTK_None) {}
@@ -120,11 +126,12 @@ T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   if (kind == PrimitiveTypeKind::PTK_Bool) {
     this->value.boolValue = newValue;
     type = kind;
+    delete[] previous;
   } else {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_Bool);
@@ -133,11 +140,12 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   if (kind == PrimitiveTypeKind::PTK_Char8) {
     this->value.char8Value = newValue;
     type = kind;
+    delete[] previous;
   } else {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_Char8);
@@ -147,7 +155,7 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   if (kind == PrimitiveTypeKind::PTK_String8) {
     if (newValue) {
@@ -159,6 +167,7 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
       this->value.string8Value = nullptr;
     }
     type = kind;
+    delete[] previous;
   } else {
 
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
@@ -168,7 +177,7 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt8 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -214,12 +223,13 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt8 newValue) {
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::UInt16 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -267,12 +277,13 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::UInt32 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -323,12 +334,13 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::UInt64 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -384,11 +396,12 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int8 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -437,11 +450,12 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int8 newValue) {
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int16 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -491,11 +505,12 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int16 newValue) {
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int32 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -547,11 +562,12 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int32 newValue) {
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int64 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_UInt8:
@@ -605,12 +621,13 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int64 newValue) {
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::Float32 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_Float32:
@@ -625,12 +642,13 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
   }
 
   type = kind;
+  delete[] previous;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::Float64 newValue) {
 
-  _releaseContent(this);
+  const auto *previous = _getContent(this);
 
   switch (kind) {
   case PrimitiveTypeKind::PTK_Float32:
@@ -646,6 +664,7 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
   }
 
   type = kind;
+  delete[] previous;
 }
 
 AnySimple::operator ::Smp::Bool() const {
-- 
2.43.0


From c7fb3a376721452e5586df59666e5dde8083b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 08/72] fix: self move assignment of an AnySimple keeps its
 value

---
 src/Smp/AnySimple.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c8e9c50..25f141c 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -81,13 +81,15 @@ AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
 AnySimple &AnySimple::operator=(::Smp::AnySimple &&other) {
 
-  _releaseContent(this);
+  if (this != &other) {
+    _releaseContent(this);
 
-  type = other.type;
-  value = other.value;
+    type = other.type;
+    value = other.value;
 
-  other.type = PrimitiveTypeKind::PTK_None;
-  other.value.string8Value = nullptr;
+    other.type = PrimitiveTypeKind::PTK_None;
+    other.value.string8Value = nullptr;
+  }
 
   return *this;
 }
-- 
2.43.0


From 7822933d7f07476465b55ff6ea17e2b7fb2769d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 09/72] fix: an empty AnySimple only equals an empty one and
 infinities equal themselves

---
 src/Smp/AnySimple.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 25f141c..6c45e4d 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1076,7 +1076,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
@@ -1100,13 +1100,17 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
+      // first comparison is for infinities
+      return value.float32Value == static_cast<::Smp::Float32>(other) ||
+             std::fabs(value.float32Value -
                        static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+                 std::numeric_limits<Float32>::epsilon();
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
+      // first comparison is for infinities
+      return value.float64Value == static_cast<::Smp::Float64>(other) ||
+             std::fabs(value.float64Value -
                        static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+                 std::numeric_limits<Float64>::epsilon();
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 4790a6ab010a1a3ff89960d62158ef8f7705f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 10/72] fix: a Duration built from an unparsable text is zero
 instead of indeterminate

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From cad91e1ea2741f492babe8f5511787bc473f3fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 11/72] fix: assignment of a std::chrono::duration to a
 DateTime compiles

---
 include/Xsmp/DateTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/DateTime.h b/include/Xsmp/DateTime.h
index 78a4d43..66ef677 100644
--- a/include/Xsmp/DateTime.h
+++ b/include/Xsmp/DateTime.h
@@ -121,7 +121,8 @@ struct DateTime final {
   template <class Rep, class Period>
   constexpr DateTime &
   operator=(const std::chrono::duration<Rep, Period> &dateTime) {
-    _value = convert(dateTime);
+    _value =
+        std::chrono::duration_cast<std::chrono::nanoseconds>(dateTime).count();
     return *this;
   }
   constexpr DateTime &operator=(Smp::DateTime dateTime) {
-- 
2.43.0


From 04728bd48d5376bc64ef83c3ee991d6162b98791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 12/72] fix: printing of a null string and of a negative Char8
 AnySimple

---
 src/Smp/StreamOperators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d9d45ef..9a965fe 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -209,7 +209,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
         return os << "'" << obj.value.char8Value << "'";
       } else {
         return os << "'\\" << std::oct
-                  << static_cast<unsigned int>(obj.value.char8Value) << std::dec
+                  << static_cast<unsigned int>(
+                         static_cast<unsigned char>(obj.value.char8Value))
+                  << std::dec
                   << "'";
       }
     }
@@ -241,6 +243,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
   case PrimitiveTypeKind::PTK_DateTime:
     return os << "\"" << ::Xsmp::DateTime(obj.value.dateTimeValue) << "\"";
   case PrimitiveTypeKind::PTK_String8:
+    if (!obj.value.string8Value) {
+      return os << "nullptr";
+    }
     return os << "\"" << obj.value.string8Value << "\"";
   }
   return os << "<invalid AnySimple type=\""
-- 
2.43.0


From c2aa1f808564c2750a3606e247a73f0c876c4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 13/72] fix: refusing a null component raises InvalidObjectType
 instead of std::bad_typeid

---
 src/Xsmp/Helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..1ec8ede 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -447,6 +447,9 @@ std::string demangle(::Smp::String8 name) {
 #endif
 }
 std::string TypeName(const ::Smp::IObject *object) {
+  if (!object) {
+    return "<null>";
+  }
   return demangle(typeid(*object).name());
 }
 
-- 
2.43.0


From 199b06e0a1e6f4ea9cc030bf1d1be8697b398a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 14/72] fix: a component can be added to a container of a
 published component

---
 src/Xsmp/Container.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..1e6d164 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -107,7 +107,8 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  // note: IComponent::GetField would raise InvalidFieldName when there is none
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From b84bd6936e5730abbd78c576147ef734a2c150cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 15/72] fix: a component whose disconnection deletes a sibling
 is removed from its container

---
 include/Xsmp/Container.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Container.h b/include/Xsmp/Container.h
index 320827a..9dc8ad9 100644
--- a/include/Xsmp/Container.h
+++ b/include/Xsmp/Container.h
@@ -292,9 +292,10 @@ public:
   /// @throws  Smp::CannotDelete
   /// @throws  Smp::NotContained
   void DeleteComponent(::Smp::IComponent *component) override {
-    if (auto it = find(dynamic_cast<T *>(component)); it != end()) {
+    if (auto *casted = dynamic_cast<T *>(component); find(casted) != end()) {
       AbstractContainer::DeleteComponent(component);
-      _vector.erase(it);
+      // find it again: its disconnection may have changed this container
+      _vector.erase(find(casted));
     } else {
       ::Xsmp::Exception::throwNotContained(this, component);
     }
-- 
2.43.0


From 12ec0ad177107d11a59d78b9f4b9700732c7dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 16/72] fix: Resolve does not drop a path segment below a field

---
 src/Xsmp/Helper.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 1ec8ede..c10bfd1 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -219,10 +219,6 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
       }
     }
   }
-
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
-  }
   return nullptr;
 }
 
@@ -383,6 +379,9 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From bfd62e1108fddc3bc891bf2ebbe857d78d5ff858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 17/72] fix: DoConfigure is called once, with the arguments it
 declares

---
 include/Xsmp/ComponentHelper.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..28c94d5 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
@@ -50,8 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
-
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
                                         ::Smp::Services::ILinkRegistry *>) {
-- 
2.43.0


From 2b6f5dfaa4759afd2911ddecded27c78144c092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 18/72] fix: DoDisconnect is not called when the component is
 not connected

---
 include/Xsmp/ComponentHelper.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 28c94d5..7f848ac 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -15,6 +15,7 @@
 #ifndef XSMP_COMPONENTHELPER_H_
 #define XSMP_COMPONENTHELPER_H_
 
+#include <Smp/ComponentStateKind.h>
 #include <Smp/IPublication.h>
 #include <Smp/ISimulator.h>
 #include <Smp/Services/ILinkRegistry.h>
@@ -104,7 +105,11 @@ public:
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoDisconnect<T>::value) {
       if constexpr (std::is_invocable_v<decltype(&T::DoDisconnect), T *>) {
-        static_cast<T *>(cmp)->DoDisconnect();
+        // do not call the user method when the state does not allow to
+        // disconnect (the exception is raised by Component::Disconnect)
+        if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Connected) {
+          static_cast<T *>(cmp)->DoDisconnect();
+        }
       }
       static_assert(std::is_invocable_v<decltype(&T::DoDisconnect), T *>,
                     "DoDisconnect has an invalid signature. Expecting 'void "
-- 
2.43.0


From ba547dfc4e5b2059664e3ea6806286983eca731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 19/72] fix: RemoveLinks removes every dataflow connection to
 the target

---
 src/Xsmp/Component.cpp         |  8 +++++---
 src/Xsmp/Publication/Field.cpp | 15 +++++++++++++--
 src/Xsmp/Publication/Field.h   | 13 +++++++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..2f5a0e5 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -156,7 +156,9 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // start from the end: Disconnect removes the field from the collection
+      for (auto index = inputFields->size(); index > 0; --index) {
+        const auto *inputField = inputFields->at(index - 1);
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
@@ -164,8 +166,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..b723c87 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -140,15 +140,26 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
   ::Xsmp::Exception::throwInvalidFieldType(parent, type);
 }
 
+DataflowField::DataflowField()
+    : _targets{"InputFields", "Collection of connected input Fields", this} {}
+
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
+}
+
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  if (!_targets.contains(target)) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
+  _targets.add(target);
   // push the current value
   Push(this, target);
 }
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..5f8a91e 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -17,7 +17,6 @@
 
 #include <Smp/AnySimpleArray.h>
 #include <Smp/IArrayField.h>
-#include <Smp/IDataflowField.h>
 #include <Smp/IField.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
@@ -25,10 +24,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +98,22 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
+  DataflowField();
+
   void Connect(::Smp::IField *target) final;
 
+  void Disconnect(const ::Smp::IField *target) final;
+
+  const ::Smp::FieldCollection *GetInputFields() const final;
+
   /// Push the current field value to all connected target fields.
   void Push() final;
 
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets;
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From 05d2bdecab1e1ce65a828ab552fe9ac883018f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 20/72] fix: an event sink can unsubscribe while it is notified

---
 src/Xsmp/EventSource.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..bac6a2e 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -79,8 +79,12 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // the sinks can subscribe and unsubscribe while they are notified
+  const auto sinks = _event_sinks;
+  for (auto *sink : sinks) {
+    if (_event_sinks.find(sink) != _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From d143163c6be5527f47e92bcb970c25b715cbbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 21/72] fix: undeclared literals are refused by every published
 enumeration field

Only 32 bit enumerations were checked, and items of simple arrays never.
---
 src/Xsmp/Publication/Field.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index b723c87..b74697a 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -559,6 +559,9 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
   if (index >= GetSize()) {
     ::Xsmp::Exception::throwInvalidArrayIndex(this, index);
   }
+  if (isInvalidEnumerationValue(_itemType, value)) {
+    ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
+  }
   void *address = static_cast<char *>(GetAddress()) + index * _itemSize;
 
   switch (_itemType->GetPrimitiveTypeKind()) {
@@ -575,9 +578,6 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
-    }
     *static_cast<::Smp::Int32 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
@@ -753,6 +753,9 @@ void SimpleField::Store(::Smp::IStorageWriter *writer) {
 }
 
 void SimpleField::SetValue(::Smp::AnySimple value) {
+  if (isInvalidEnumerationValue(GetType(), value)) {
+    ::Xsmp::Exception::throwInvalidFieldValue(this, value);
+  }
   auto kind = GetPrimitiveTypeKind();
   switch (kind) {
   case ::Smp::PrimitiveTypeKind::PTK_Bool:
@@ -768,9 +771,6 @@ void SimpleField::SetValue(::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidFieldValue(this, value);
-    }
     *static_cast<::Smp::Int32 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
-- 
2.43.0


From be022ab28f35abe499af06d686a63208e109021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 22/72] fix: a refused SetValues changes no item of a simple
 array

---
 include/Xsmp/Field.h           |  2 ++
 src/Xsmp/Publication/Field.cpp | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index accd020..b8ef894 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -802,6 +802,8 @@ public:
       if (values[i].type != _itemKind) {
         ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
       }
+    }
+    for (size_t i = 0; i < _size; ++i) {
       _value[i] = ::Xsmp::AnySimpleConverter<value_type>::convert(values[i]);
     }
   }
diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index b74697a..e4ccb0f 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -31,6 +31,7 @@
 #include <cstddef>
 #include <memory>
 #include <string>
+#include <vector>
 
 namespace Xsmp::Publication {
 
@@ -407,8 +408,18 @@ void AnonymousSimpleArrayField::SetValues(::Smp::UInt64 length,
   if (length != GetSize()) {
     ::Xsmp::Exception::throwInvalidArraySize(this, length);
   }
-  for (::Smp::UInt64 i = 0; i < length; ++i) {
-    SetValue(i, values[i]);
+  std::vector<::Smp::AnySimple> previous(length);
+  GetValues(length, previous.data());
+  try {
+    for (::Smp::UInt64 i = 0; i < length; ++i) {
+      SetValue(i, values[i]);
+    }
+  } catch (...) {
+    // a value is refused: keep all the previous values
+    for (::Smp::UInt64 i = 0; i < length; ++i) {
+      SetValue(i, previous[i]);
+    }
+    throw;
   }
 }
 
@@ -634,9 +645,12 @@ void SimpleArrayField::SetValues(::Smp::UInt64 length,
   }
   auto _itemKind = _itemType->GetPrimitiveTypeKind();
   for (::Smp::UInt64 i = 0; i < length; ++i) {
-    if (values[i].type != _itemKind) {
+    if (values[i].type != _itemKind ||
+        isInvalidEnumerationValue(_itemType, values[i])) {
       ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
     }
+  }
+  for (::Smp::UInt64 i = 0; i < length; ++i) {
     SetValue(i, values[i]);
   }
 }
-- 
2.43.0


From f323336bd628c561a1e2e23337a2002ab452b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 23/72] fix: items of a connectable simple array field can be
 read through operator[] and data()

---
 include/Xsmp/Field.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index b8ef894..aadcf42 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -835,11 +835,11 @@ public:
                         size_t index)
         : _parent{parent}, _value{value}, _index{index} {}
 
-    operator const T &() const noexcept { return _value; }
+    operator const value_type &() const noexcept { return _value; }
 
-    const T &operator*() const noexcept { return _value; }
+    const value_type &operator*() const noexcept { return _value; }
 
-    const T &operator->() const noexcept { return &_value; }
+    const value_type *operator->() const noexcept { return &_value; }
 
     protected_reference &operator=(const value_type &value) noexcept {
       return SetValue(value);
@@ -1111,7 +1111,7 @@ public:
 
   [[nodiscard]] const_reference back() const noexcept { return _value.back(); }
 
-  [[nodiscard]] pointer data() noexcept {
+  [[nodiscard]] iterator data() noexcept {
     if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
                                              Annotations...>) {
       return iterator{this, _value.data(), 0};
-- 
2.43.0


From 092ed759796892ba2a1d0f1e101b94eed04b133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 24/72] fix: a refused Force keeps the field forced

---
 src/Xsmp/Field.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..528db85 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -541,8 +541,15 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
+  const auto forced = _forced;
   _forced = false;
-  this->SetValue(std::move(value));
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    // the value is refused: nothing changes
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From 7fd82ad4659f29087fef467a606e5d77702f7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 25/72] fix: an output structure with a nested structure can be
 connected

---
 include/Xsmp/Field.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index aadcf42..3d6d93e 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -1179,6 +1179,11 @@ protected:
       using type = typename U::connectable;
     };
 
+    template <typename U>
+    struct annotation<U, ::Xsmp::Annotation::connectable> {
+      using type = typename U::connectable;
+    };
+
     template <typename U> struct annotation<U, ::Xsmp::Annotation::forcible> {
       using type = typename U::forcible;
     };
-- 
2.43.0


From bd96e0f1d918d1a6c72091a4e48500783afbf710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 26/72] fix: simple arrays are compatible when their items are
 of the same kind

---
 src/Xsmp/Helper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index c10bfd1..f772f7d 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -245,11 +246,22 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+/// Get the kind of the items: the type of the field is either the array type or
+/// (published without array type) the type of the items.
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  if (const auto *array =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = array->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From 61d66823568587e902021137764b5aaac1340ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 27/72] fix: writing an output simple array through its
 interface, fill or swap updates the connected inputs

---
 include/Xsmp/Field.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index 3d6d93e..657484f 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -779,6 +779,10 @@ public:
       ::Xsmp::Exception::throwInvalidFieldValue(this, value);
     }
     _value[index] = ::Xsmp::AnySimpleConverter<value_type>::convert(value);
+    if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
+                                             Annotations...>) {
+      this->internal_push(index);
+    }
   }
 
   void GetValues(::Smp::UInt64 length,
@@ -806,6 +810,7 @@ public:
     for (size_t i = 0; i < _size; ++i) {
       _value[i] = ::Xsmp::AnySimpleConverter<value_type>::convert(values[i]);
     }
+    push_all();
   }
 
   void Restore(::Smp::IStorageReader *reader) override {
@@ -990,8 +995,14 @@ public:
   operator const T &() const noexcept { return _value; }
   operator T &() noexcept { return _value; }
 
-  void fill(const value_type &_u) { _value.fill(_u); }
-  void swap(T &_other) noexcept { _value.swap(_other); }
+  void fill(const value_type &_u) {
+    _value.fill(_u);
+    push_all();
+  }
+  void swap(T &_other) noexcept {
+    _value.swap(_other);
+    push_all();
+  }
 
   // Iterators.
   [[nodiscard]] iterator begin() noexcept {
@@ -1123,6 +1134,15 @@ public:
   [[nodiscard]] const_pointer data() const noexcept { return _value.data(); }
 
 private:
+  void push_all() const {
+    if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
+                                             Annotations...>) {
+      for (size_t i = 0; i < _size; ++i) {
+        this->internal_push(i);
+      }
+    }
+  }
+
   const ::Smp::Publication::IArrayType *_type;
   T _value;
 };
-- 
2.43.0


From cc932b8e80e1b64a4b97d467d65f81a537efda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 28/72] fix: StorageWriter stores in the current directory for
 an empty path and raises CannotStore when its directory cannot be created

---
 src/Xsmp/StorageWriter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..d55d697 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,10 +32,17 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
+  const auto directory = fs::path(path ? path : "");
+  std::error_code error;
+  // an empty path is the current directory
+  if (!directory.empty() && !fs::is_directory(directory, error)) {
+    fs::create_directories(directory, error);
+    if (!fs::is_directory(directory, error)) {
+      ::Xsmp::Exception::throwCannotStore(object, "Cannot create directory: " +
+                                                      directory.string());
+    }
   }
-  auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
+  auto fullPath = directory / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
   if (!outputStream.good()) {
-- 
2.43.0


From 66d4383c402063cc1c32e62fdffcdc21c4ae650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 29/72] fix: Persist stores and restores every character of
 strings of wide characters

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 77b0aff58eadbbf0048ff7a3d99389f729a041b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 30/72] fix: entry points are executed also when the simulator
 has no logger

---
 src/Xsmp/Helper.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index f772f7d..94c297d 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -57,37 +57,39 @@ void SafeExecute(::Smp::ISimulator *simulator,
                  const ::Smp::IEntryPoint *entryPoint) {
 
   if (simulator) {
+    // the logger is optional
+    auto log = [simulator](const ::Smp::IObject *sender, ::Smp::String8 message,
+                           ::Smp::Services::LogMessageKind kind) {
+      if (auto *logger = simulator->GetLogger()) {
+        logger->Log(sender, message, kind);
+      }
+    };
     try {
-      simulator->GetLogger()->Log(entryPoint, "Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "Execute()", ::Smp::Services::ILogger::LMK_Debug);
 
       entryPoint->Execute();
 
-      simulator->GetLogger()->Log(entryPoint, "return from Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "return from Execute()",
+          ::Smp::Services::ILogger::LMK_Debug);
     }
     // SMP Exception
     catch (const ::Smp::Exception &e) {
       auto msg =
           std::string("Exception ") + e.GetName() + " thrown during execution.";
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->GetLogger()->Log(e.GetSender(), e.what(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+      log(e.GetSender(), e.what(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // standard c++ exception
     catch (const std::exception &e) {
 
       auto msg = std::string("Exception thrown during execution: ") + e.what();
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // other exceptions
     catch (...) {
-      simulator->GetLogger()->Log(
-          entryPoint, "Unexpected exception thrown during execution.",
+      log(entryPoint, "Unexpected exception thrown during execution.",
           ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
-- 
2.43.0


From b45f67e222f50b910d40362befa68ba9190ddf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 31/72] fix: an event id is never returned before the event
 manager knows it

---
 src/Xsmp/Services/XsmpEventManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..40f04b4 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -107,7 +107,8 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
+  // make the id known before releasing the events, so that no other thread can
+  // get it from its name while it is still unknown
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
@@ -201,10 +202,11 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
   ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
                            _subscriptions.write().get());
-  // rebuild _ids map from _events
+  // rebuild _ids map from _events (locked in the same order as in QueryEventId)
+  auto eventsAccess = _events.read();
   auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
-- 
2.43.0


From e5cb10ca81030f76500bc7148cbc6bc4c9c311fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 32/72] fix: links from several sources with the same name to
 one target can be registered

---
 src/Xsmp/Services/XsmpLinkRegistry.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..08375ad 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -128,8 +128,10 @@ private:
                ::Smp::UInt32>>
       _links;
 
-  mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+  // several sources can have the same name
+  mutable Xsmp::ThreadSafeData<
+      std::map<const ::Smp::IComponent *,
+               ::Xsmp::Collection<::Smp::IComponent, true>>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From d3c5f7da3c9f54317a0cc7854e7110cbcdf2c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 33/72] fix: XsmpLinkRegistry::RemoveLinks asks every source
 even if links are removed meanwhile

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..8de2f87 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,17 +107,23 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
+  // copy the sources: they can add and remove links when they are asked to
+  // remove theirs
+  std::vector<::Smp::ILinkingComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      for (auto *source : it->second) {
+        if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+          sources.push_back(cmp);
+        }
       }
     }
   }
+  for (auto *source : sources) {
+    source->RemoveLinks(target);
+  }
 }
 
 } // namespace Xsmp::Services
-- 
2.43.0


From a8dfa2cbe3a05be352fb1f1b637425c4a3697dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 34/72] fix: XsmpLinkRegistry::RemoveLink updates the count and
 the sources of a target together

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index 8de2f87..2bd3516 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -62,7 +62,6 @@ XsmpLinkRegistry::GetLinkCount(const ::Smp::IComponent *source,
   it->second--;
   if (it->second == 0) {
     linksAccess.get().erase(it);
-    linksAccess.unlock();
     auto targetsAccess = _targets.write();
     auto it2 = targetsAccess.get().find(target);
     if (it2 != targetsAccess.get().end()) {
-- 
2.43.0


From 31696e048948ee52f23266134eaaba56270c183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 35/72] fix: lock the times of XsmpTimeKeeper in one order in
 Store and Restore

The locks were taken while evaluating the arguments of a function, whose order
is unspecified: with gcc it is the reverse of the one used by the other
methods, which deadlocks when called concurrently.
---
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2694531..2447378 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -93,15 +93,21 @@ void XsmpTimeKeeper::SetSimulationTime(::Smp::Duration simulationTime) {
 }
 
 void XsmpTimeKeeper::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(
-      GetSimulator(), this, reader, _simulationTime.write().get(),
-      _missionStartTime.write().get(), _epochStart.write().get());
+  // lock in the same order as the other methods: the evaluation order of
+  // function arguments is unspecified
+  auto simulationTime = _simulationTime.write();
+  auto epochStart = _epochStart.write();
+  auto missionStartTime = _missionStartTime.write();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, simulationTime.get(),
+                           missionStartTime.get(), epochStart.get());
 }
 
 void XsmpTimeKeeper::Store(::Smp::IStorageWriter *writer) {
-  ::Xsmp::Persist::Store(
-      GetSimulator(), this, writer, _simulationTime.read().get(),
-      _missionStartTime.read().get(), _epochStart.read().get());
+  auto simulationTime = _simulationTime.read();
+  auto epochStart = _epochStart.read();
+  auto missionStartTime = _missionStartTime.read();
+  ::Xsmp::Persist::Store(GetSimulator(), this, writer, simulationTime.get(),
+                         missionStartTime.get(), epochStart.get());
 }
 void XsmpTimeKeeper::_PreSimTimeChange() { _simTimeChanging = true; }
 void XsmpTimeKeeper::_PostSimTimeChange() { _simTimeChanging = false; }
-- 
2.43.0


From 5a328837cf34509f6a563b922a61f6e0b4e20973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 36/72] fix: execute the pending events of XsmpScheduler one at
 a time

The events of the current instant were moved to a local list before being
executed. Removing or moving one of them from an event (or the event itself)
left stale identifiers or used the released node of the table, removing a
pending immediate event made Run() throw, an event posted before the next one
by a SMP_PreSimTimeChange subscriber made Run() throw, events were executed
after a Hold(true) made by a SMP_PostSimTimeChange subscriber, and
GetNextScheduledEventTime() returned a time without event.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 203 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  33 ++++-
 2 files changed, 132 insertions(+), 104 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..d5e72e8 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -242,13 +242,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
+  Unschedule(eventId, it->second);
 
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -297,9 +292,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
+    Unschedule(event, it->second);
 
     if (zuluTime < currentZulu) {
       _events.erase(it);
@@ -349,32 +342,29 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
-
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second);
   } else {
+    Unschedule(event, it->second);
+  }
+  _events.erase(it);
+}
 
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
+void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+                               const Event &event) {
+  auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                    ? _zulu_events_table
+                    : _events_table;
 
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
+  if (auto it = table.find(event.nextScheduleSimulationTime);
+      it != table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      table.erase(it);
     }
   }
-  _events.erase(it);
+  _immediate_events.erase(eventId);
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -390,11 +380,15 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   return std::numeric_limits<::Smp::Duration>::max();
 }
 
-void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
+bool XsmpScheduler::HasEvents() const {
+  const std::scoped_lock lck{_eventsMutex};
+  return !_events_table.empty();
+}
 
-  std::unique_lock lck{_eventsMutex};
+void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
+                            std::unique_lock<std::mutex> &lck) {
 
-  auto &event = _events.at(eventId);
+  const auto &event = _events.at(eventId);
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
@@ -410,54 +404,56 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
-    _currentEventId = eventId;
-    lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-    lck.lock();
-    _currentEventId = -1;
-  }
-
-  if (event.repeat == 0) {
-    // remove the event
-    _events.erase(_events.find(eventId));
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
-    }
-    // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
-
-    // post the event in the table
-    _events_table.try_emplace(event.nextScheduleSimulationTime)
-        .first->second.emplace(eventId);
+    ExecuteEntryPoint(eventId, event.entryPoint, lck);
   }
+  Reschedule(eventId, _events_table);
 }
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
   std::unique_lock lck(_eventsMutex);
 
-  auto &event = _events.at(eventId);
+  const auto &event = _events.at(eventId);
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
+    ExecuteEntryPoint(eventId, event.entryPoint, lck);
+  }
 
-    const std::scoped_lock lck2(_execMutex);
-    _currentEventId = eventId;
-    lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-    lck.lock();
-    _currentEventId = -1;
+  const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+  Reschedule(eventId, _zulu_events_table);
+}
+
+void XsmpScheduler::ExecuteEntryPoint(::Smp::Services::EventId eventId,
+                                      const ::Smp::IEntryPoint *entryPoint,
+                                      std::unique_lock<std::mutex> &lck) {
+  const std::scoped_lock lck2(_execMutex);
+  _currentEventId = eventId;
+  lck.unlock();
+  ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
+  lck.lock();
+  _currentEventId = -1;
+}
+
+void XsmpScheduler::Reschedule(::Smp::Services::EventId eventId,
+                               std::map<::Smp::Duration, EventList> &table) {
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // removed during its execution
   }
+  auto &event = it->second;
 
-  if (event.repeat == 0) {
+  auto scheduled = table.find(event.nextScheduleSimulationTime);
+  if (scheduled != table.end() && scheduled->second.count(eventId)) {
+    // moved to another time during its execution
+    if (event.repeat > 0) {
+      event.repeat--;
+    }
+  } else if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    _events.erase(it);
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
@@ -465,50 +461,59 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
     }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
+    event.time += event.cycleTime;
+
     // post the event in the table
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-    _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+    table.try_emplace(event.nextScheduleSimulationTime)
         .first->second.emplace(eventId);
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
 
   // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
+  while (_simulationStatus != Status::Hold) {
+    {
+      std::unique_lock lck{_eventsMutex};
+      // take the first event: the list may change during its execution
+      auto it = _events_table.find(time);
+      if (it == _events_table.end()) {
+        return true;
       }
+      auto eventId = *it->second.begin();
+      it->second.erase(it->second.begin());
+      if (it->second.empty()) {
+        _events_table.erase(it);
+      }
+      Execute(eventId, lck);
+    }
+    // process immediate events posted by this event
+    if (!ExecuteImmediateEvents()) {
+      return false;
     }
   }
-  return true;
+  return false;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+  while (_simulationStatus != Status::Hold) {
+    std::unique_lock lck{_eventsMutex};
+    // take the first event: the list may change during its execution
+    if (_immediate_events.empty()) {
+      return true;
     }
+    auto eventId = *_immediate_events.begin();
+    _immediate_events.erase(_immediate_events.begin());
+
+    // an immediate event is due now
+    auto &event = _events.at(eventId);
+    event.nextScheduleSimulationTime =
+        GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+    event.time = event.nextScheduleSimulationTime;
+
+    Execute(eventId, lck);
   }
-  return true;
+  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -607,11 +612,8 @@ void XsmpScheduler::_EnterExecuting() {
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
-    lck.unlock();
+  while (HasEvents()) {
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
@@ -620,7 +622,9 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    // take the next event now: SMP_PreSimTimeChange may have changed it
+    auto time = GetNextScheduledEventTime();
+    auto duration = time - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -647,17 +651,16 @@ void XsmpScheduler::_EnterExecuting() {
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(time);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents(time)) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
 
   _load.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..4b180df 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -452,19 +452,44 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
+  /// Remove an event from the tables of scheduled events
+  /// @param eventId the event id to remove
+  /// @param event the event data
+  void Unschedule(::Smp::Services::EventId eventId, const Event &event);
+
+  /// @return true if at least one simulation/epoch/mission event is scheduled
+  bool HasEvents() const;
+
   /// Execute a specific event
   /// @param eventId the event id to execute
-  void Execute(::Smp::Services::EventId eventId);
+  /// @param lck the lock on _eventsMutex
+  void Execute(::Smp::Services::EventId eventId,
+               std::unique_lock<std::mutex> &lck);
 
   /// Execute a specific event
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Execute the entry point of an event
+  /// @param eventId the event id
+  /// @param entryPoint the entry point to execute
+  /// @param lck the lock on _eventsMutex, released during the execution
+  void ExecuteEntryPoint(::Smp::Services::EventId eventId,
+                         const ::Smp::IEntryPoint *entryPoint,
+                         std::unique_lock<std::mutex> &lck);
+
+  /// Schedule the next occurrence of an event that has been executed, or remove
+  /// the event if there is none
+  /// @param eventId the event id
+  /// @param table the table of the scheduled events of this kind
+  void Reschedule(::Smp::Services::EventId eventId,
+                  std::map<::Smp::Duration, EventList> &table);
+
+  /// Execute all events scheduled at a given time
+  /// @param time the time of the events to execute
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents(::Smp::Duration time);
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 93b42af82d30a54ff5138e6e56ea2dcc0115f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 37/72] fix: SetEventCycleTime refuses an invalid cycle time
 for events that repeat forever

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index d5e72e8..fb949cf 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -314,7 +314,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 83596a3aa4eb5d1c6229ba00c80a0f7a3976be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 38/72] fix: remove the event that ends Run(duration) when the
 simulation is held before

The event refers to a local entry point of Run(): a later run executed it after
its destruction.
---
 src/Xsmp/Simulator.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..4fae235 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -29,6 +29,7 @@
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/IResolver.h>
 #include <Smp/Services/IScheduler.h>
+#include <Smp/Services/InvalidEventId.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Smp/Uuid.h>
 #include <Xsmp/EntryPoint.h>
@@ -319,13 +320,26 @@ void Simulator::Run(::Smp::Duration duration) {
     return;
   }
 
+  bool executed = false;
   ::Xsmp::EntryPoint hold{"hold",
                           "call simulator hold after the specified duration",
-                          this, [this] { this->Hold(false); }};
+                          this, [this, &executed] {
+                            executed = true;
+                            this->Hold(false);
+                          }};
+  ::Smp::Services::EventId eventId = -1;
   if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+    eventId = _scheduler->AddSimulationTimeEvent(&hold, duration);
   }
   Run();
+  // the simulation may have been held before the end of the duration
+  if (_scheduler && !executed) {
+    try {
+      _scheduler->RemoveEvent(eventId);
+    } catch (const ::Smp::Services::InvalidEventId &) {
+      // already removed
+    }
+  }
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
-- 
2.43.0


From f95de0dcf34c898402455c9fdae5b646a6a6c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 39/72] fix: Simulator::Hold(false) called twice or followed by
 Hold(true)

The second call raised EntryPointAlreadySubscribed (which aborts the simulation
when made from an event), and a hold requested before Hold(true) stopped the
next run at its first time change.
---
 src/Xsmp/Simulator.cpp | 21 +++++++++++++++++----
 src/Xsmp/Simulator.h   |  8 ++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 4fae235..aca5298 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -40,6 +40,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <mutex>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -67,9 +68,7 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       _holdImmediately{
           "HoldImmediately", "", this,
           [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
+            this->CancelHoldRequest();
             this->Hold(true);
           }},
       // initialize the Type Registry
@@ -357,6 +356,8 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+    // a hold requested for the next simulation time change is now useless
+    CancelHoldRequest();
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
@@ -364,14 +365,26 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
+    const std::scoped_lock lck{_holdMutex};
+    if (_eventManager && !_holdRequested) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
+      _holdRequested = true;
     }
   }
 }
 
+void Simulator::CancelHoldRequest() {
+  const std::scoped_lock lck{_holdMutex};
+  if (_holdRequested) {
+    _eventManager->Unsubscribe(
+        ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+        &_holdImmediately);
+    _holdRequested = false;
+  }
+}
+
 enum class PersistKind { PERSIST, COMPONENT, COMPOSITE, CONTAINER, FIELD };
 namespace {
 void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..711592d 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -30,6 +30,7 @@
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
 #include <list>
+#include <mutex>
 #include <utility>
 #include <vector>
 
@@ -393,6 +394,13 @@ private:
 
   ::Xsmp::EntryPoint _holdImmediately;
 
+  /// true if _holdImmediately is subscribed (protected by _holdMutex)
+  bool _holdRequested = false;
+  std::mutex _holdMutex;
+
+  /// Cancel a hold requested for the next simulation time change
+  void CancelHoldRequest();
+
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
   ::Smp::Services::IResolver *_resolver = nullptr;
-- 
2.43.0


From 91c22725207b2c4a4d0b314fb57f353503885c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 40/72] fix: reschedule epoch and mission events when epoch or
 mission time changes

They stayed at the simulation time computed when they were posted: they were
executed before their time when the clock was set back, and lost when it was
set forward, even if they were not yet due.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 71 ++++++++++++++++++++++-------
 src/Xsmp/Services/XsmpScheduler.h   | 17 ++++++-
 2 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index fb949cf..856286d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,10 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EpochTimeChangedId, &TimeChanged);
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_MissionTimeChangedId, &TimeChanged);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
@@ -351,20 +355,63 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   _events.erase(it);
 }
 
-void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+bool XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
                                const Event &event) {
   auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
                     ? _zulu_events_table
                     : _events_table;
 
   if (auto it = table.find(event.nextScheduleSimulationTime);
-      it != table.end()) {
-    it->second.erase(eventId);
+      it != table.end() && it->second.erase(eventId)) {
     if (it->second.empty()) {
       table.erase(it);
     }
+    return true;
+  }
+  return _immediate_events.erase(eventId) != 0;
+}
+
+::Smp::Duration XsmpScheduler::GetRemainingTime(const Event &event) const {
+  switch (event.kind) {
+  case ::Smp::Services::TimeKind::TK_EpochTime:
+    return event.time - GetSimulator()->GetTimeKeeper()->GetEpochTime();
+  case ::Smp::Services::TimeKind::TK_MissionTime:
+    return event.time - GetSimulator()->GetTimeKeeper()->GetMissionTime();
+  default:
+    return event.time - GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+  }
+}
+
+void XsmpScheduler::UpdateSimulationTime(Event &event) const {
+  if (event.kind == ::Smp::Services::TimeKind::TK_EpochTime ||
+      event.kind == ::Smp::Services::TimeKind::TK_MissionTime) {
+    // occurrences that are now in the past are skipped
+    if (auto remaining = GetRemainingTime(event);
+        remaining < 0 && event.repeat != 0) {
+      auto missed = (event.cycleTime - 1 - remaining) / event.cycleTime;
+      if (event.repeat > 0) {
+        missed = std::min(missed, event.repeat);
+        event.repeat -= missed;
+      }
+      event.time += missed * event.cycleTime;
+    }
+    event.nextScheduleSimulationTime =
+        GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
+        std::max(static_cast<::Smp::Duration>(0), GetRemainingTime(event));
+  }
+}
+
+void XsmpScheduler::UpdateEvents() {
+  const std::scoped_lock lck{_eventsMutex};
+  for (auto &[eventId, event] : _events) {
+    if ((event.kind == ::Smp::Services::TimeKind::TK_EpochTime ||
+         event.kind == ::Smp::Services::TimeKind::TK_MissionTime) &&
+        Unschedule(eventId, event)) {
+      UpdateSimulationTime(event);
+      _events_table.try_emplace(event.nextScheduleSimulationTime)
+          .first->second.emplace(eventId);
+    }
   }
-  _immediate_events.erase(eventId);
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -391,19 +438,7 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
   const auto &event = _events.at(eventId);
 
   // skip event if epoch/mission time has changed and event is in the past
-  bool skip = false;
-  switch (event.kind) {
-  case ::Smp::Services::TimeKind::TK_EpochTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
-    break;
-  case ::Smp::Services::TimeKind::TK_MissionTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
-    break;
-  default:
-    break;
-  }
-
-  if (!skip) {
+  if (GetRemainingTime(event) >= 0) {
     ExecuteEntryPoint(eventId, event.entryPoint, lck);
   }
   Reschedule(eventId, _events_table);
@@ -462,6 +497,8 @@ void XsmpScheduler::Reschedule(::Smp::Services::EventId eventId,
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
     event.time += event.cycleTime;
+    // epoch/mission time may have changed during the execution
+    UpdateSimulationTime(event);
 
     // post the event in the table
     table.try_emplace(event.nextScheduleSimulationTime)
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 4b180df..5ceb533 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -455,7 +455,22 @@ private:
   /// Remove an event from the tables of scheduled events
   /// @param eventId the event id to remove
   /// @param event the event data
-  void Unschedule(::Smp::Services::EventId eventId, const Event &event);
+  /// @return true if the event was scheduled
+  bool Unschedule(::Smp::Services::EventId eventId, const Event &event);
+
+  /// @param event a simulation/epoch/mission event
+  /// @return the duration until the event is due, negative if it is in the past
+  ::Smp::Duration GetRemainingTime(const Event &event) const;
+
+  /// Update the simulation time of an epoch/mission event
+  /// @param event the event to update
+  void UpdateSimulationTime(Event &event) const;
+
+  /// Reschedule epoch/mission events after a change of epoch or mission time
+  void UpdateEvents();
+  ::Xsmp::EntryPoint TimeChanged{
+      "TimeChanged", "Reschedule the epoch and mission time events", this,
+      [this] { UpdateEvents(); }};
 
   /// @return true if at least one simulation/epoch/mission event is scheduled
   bool HasEvents() const;
-- 
2.43.0


From fd66de68245bec7e1984f583f57ec6e5c9d95ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 41/72] fix: deadlocks and lost events between the simulation
 and the zulu thread

An event that uses the scheduler while a zulu event is due deadlocked
(_eventsMutex and _execMutex were locked in both orders), as did a zulu event
that runs the simulation. A zulu event removed or moved just before its
execution terminated the program or was executed anyway, an event posted while
the thread waits for a later one was executed too late, and Exit() from a zulu
event terminated the program.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 108 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  13 ++--
 2 files changed, 61 insertions(+), 60 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 856286d..6642f83 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -102,15 +102,14 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
 void XsmpScheduler::DoDisconnect() {
   // stop the zulu thread
   {
-    const std::scoped_lock lck{_zuluEventsTableMutex};
-    // if already terminated do nothing
-    if (_terminate) {
-      return;
-    }
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
     _terminate = true;
   }
   _zuluCv.notify_one();
-  if (_zuluThread.joinable()) {
+  _executionCv.notify_all();
+  // when called from a zulu event, the thread is joined by the destructor
+  if (_zuluThread.joinable() &&
+      _zuluThread.get_id() != std::this_thread::get_id()) {
     _zuluThread.join();
   }
 }
@@ -444,10 +443,26 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
   Reschedule(eventId, _events_table);
 }
 
-void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
+void XsmpScheduler::ExecuteZuluEvent() {
 
   std::unique_lock lck(_eventsMutex);
+  _executionCv.wait(lck, [this] { return _terminate || CanExecute(); });
 
+  ::Smp::Services::EventId eventId = -1;
+  {
+    // take the first event, unless it has been removed or moved meanwhile
+    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    auto it = _zulu_events_table.begin();
+    if (_terminate || it == _zulu_events_table.end() ||
+        it->first > GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+      return;
+    }
+    eventId = *it->second.begin();
+    it->second.erase(it->second.begin());
+    if (it->second.empty()) {
+      _zulu_events_table.erase(it);
+    }
+  }
   const auto &event = _events.at(eventId);
 
   // execute the event only in executing and standby states
@@ -464,12 +479,21 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 void XsmpScheduler::ExecuteEntryPoint(::Smp::Services::EventId eventId,
                                       const ::Smp::IEntryPoint *entryPoint,
                                       std::unique_lock<std::mutex> &lck) {
-  const std::scoped_lock lck2(_execMutex);
-  _currentEventId = eventId;
+  // a zulu event may run the simulation
+  const auto executingThread =
+      std::exchange(_executingThread, std::this_thread::get_id());
+  const auto currentEventId = std::exchange(_currentEventId, eventId);
   lck.unlock();
   ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
   lck.lock();
-  _currentEventId = -1;
+  _currentEventId = currentEventId;
+  _executingThread = executingThread;
+  _executionCv.notify_all();
+}
+
+bool XsmpScheduler::CanExecute() const {
+  return _executingThread == std::thread::id{} ||
+         _executingThread == std::this_thread::get_id();
 }
 
 void XsmpScheduler::Reschedule(::Smp::Services::EventId eventId,
@@ -512,6 +536,10 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
   while (_simulationStatus != Status::Hold) {
     {
       std::unique_lock lck{_eventsMutex};
+      _executionCv.wait(lck, [this] { return CanExecute(); });
+      if (_simulationStatus == Status::Hold) {
+        return false;
+      }
       // take the first event: the list may change during its execution
       auto it = _events_table.find(time);
       if (it == _events_table.end()) {
@@ -535,6 +563,10 @@ bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events
   while (_simulationStatus != Status::Hold) {
     std::unique_lock lck{_eventsMutex};
+    _executionCv.wait(lck, [this] { return CanExecute(); });
+    if (_simulationStatus == Status::Hold) {
+      return false;
+    }
     // take the first event: the list may change during its execution
     if (_immediate_events.empty()) {
       return true;
@@ -559,54 +591,18 @@ void XsmpScheduler::InternalZuluRun() {
 
   while (!_terminate) {
 
-    // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
-      }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
-    }
-
-    // wait until next event
     if (_zulu_events_table.empty()) {
-      // exit if terminate signal received or a new event is posted.
-      // in case a new event is posted, exit the loop and wait for the remaining
-      // time (else branch)
-      _zuluCv.wait(
-          lck, [this]() { return _terminate || !_zulu_events_table.empty(); });
+      // wait until a new event is posted or the terminate signal is received
+      _zuluCv.wait(lck);
+    } else if (auto delay = _zulu_events_table.begin()->first -
+                            GetSimulator()->GetTimeKeeper()->GetZuluTime();
+               delay > 0) {
+      // wait for the next event, or until the events are modified
+      _zuluCv.wait_for(lck, std::chrono::nanoseconds{delay});
     } else {
-      _zuluCv.wait_for(
-          lck,
-          std::chrono::nanoseconds{
-              std::max(static_cast<::Smp::Duration>(0),
-                       _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
-          });
+      lck.unlock();
+      ExecuteZuluEvent();
+      lck.lock();
     }
   }
 }
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 5ceb533..d82862c 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -417,7 +417,13 @@ private:
   std::atomic<Status> _simulationStatus;
   bool _terminate{};
 
-  std::mutex _execMutex;
+  // The thread that is executing an event: events are executed one at a time
+  // (protected by _eventsMutex)
+  std::thread::id _executingThread;
+  mutable std::condition_variable _executionCv;
+
+  /// @return true if the calling thread is allowed to execute an event
+  bool CanExecute() const;
 
   // thread that process zulu events
   std::thread _zuluThread;
@@ -481,9 +487,8 @@ private:
   void Execute(::Smp::Services::EventId eventId,
                std::unique_lock<std::mutex> &lck);
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void ExecuteZulu(::Smp::Services::EventId eventId);
+  /// Execute the next zulu event if it is due
+  void ExecuteZuluEvent();
 
   /// Execute the entry point of an event
   /// @param eventId the event id
-- 
2.43.0


From d274c348b5fc3df19fcc74762a792ce4ad384366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 42/72] fix: holds and events lost while the scheduler waits
 for the next event

A hold requested at the start of a run was lost, events posted by another
thread while the scheduler waited were executed too late (or in the past),
and aborting the simulation did not stop the execution.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 129 +++++++++++++++++++---------
 src/Xsmp/Services/XsmpScheduler.h   |  16 +++-
 2 files changed, 102 insertions(+), 43 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 6642f83..fda7d93 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // stop the execution when the simulation is aborted
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_EpochTimeChangedId, &TimeChanged);
   simulator->GetEventManager()->Subscribe(
@@ -136,6 +139,7 @@ XsmpScheduler::AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) {
                             ::Smp::Services::TimeKind::TK_SimulationTime});
 
   _immediate_events.emplace(_lastEventId);
+  NotifyChange();
   return _lastEventId;
 }
 
@@ -161,6 +165,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
                                           cycleTime, repeat, kind});
 
   _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
+  NotifyChange();
 
   GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
                                    ::Smp::Services::ILogger::LMK_Debug);
@@ -172,6 +177,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_timeMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
       simulationTime; // TODO check overflow
@@ -183,6 +189,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_timeMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
@@ -195,6 +202,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_timeMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
@@ -249,6 +257,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
 
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
+    NotifyChange();
     return;
   }
 
@@ -256,11 +265,13 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   it->second.time = time;
 
   _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
+  NotifyChange();
 }
 
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
                                            ::Smp::Duration simulationTime) {
 
+  const std::scoped_lock lck{_timeMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
   SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
@@ -268,6 +279,7 @@ void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
+  const std::scoped_lock lck{_timeMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime();
@@ -277,6 +289,7 @@ void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
+  const std::scoped_lock lck{_timeMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime();
@@ -352,6 +365,15 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
     Unschedule(event, it->second);
   }
   _events.erase(it);
+  NotifyChange();
+}
+
+void XsmpScheduler::NotifyChange() {
+  {
+    const std::scoped_lock lck{_holdMutex};
+    _changed = true;
+  }
+  _holdCv.notify_one();
 }
 
 bool XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
@@ -401,6 +423,7 @@ void XsmpScheduler::UpdateSimulationTime(Event &event) const {
 }
 
 void XsmpScheduler::UpdateEvents() {
+  const std::scoped_lock lckTime{_timeMutex};
   const std::scoped_lock lck{_eventsMutex};
   for (auto &[eventId, event] : _events) {
     if ((event.kind == ::Smp::Services::TimeKind::TK_EpochTime ||
@@ -411,6 +434,7 @@ void XsmpScheduler::UpdateEvents() {
           .first->second.emplace(eventId);
     }
   }
+  NotifyChange();
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -627,64 +651,83 @@ void XsmpScheduler::_LeaveExecuting() {
   _holdCv.notify_one();
 }
 
+bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime) {
+
+  auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+
+  // the events may be modified while waiting
+  while (_simulationStatus != Status::Hold) {
+    {
+      const std::scoped_lock lck{_holdMutex};
+      _changed = false;
+    }
+    const auto duration =
+        GetNextScheduledEventTime() - timeKeeper->GetSimulationTime();
+    const auto zuluDuration = static_cast<::Smp::Duration>(
+        std::min(static_cast<double>(duration) / _targetSpeed,
+                 static_cast<double>(MaxDuration / 2)));
+
+    // keep synchronized with zulu time
+    const auto elapsed = timeKeeper->GetZuluTime() - zuluTime;
+    if (zuluDuration <= elapsed) {
+      if (duration) {
+        _speed.AddSample(static_cast<double>(elapsed) /
+                         static_cast<double>(duration));
+      }
+      zuluTime += zuluDuration;
+      return true;
+    }
+    {
+      std::unique_lock lck{_holdMutex};
+      _holdCv.wait_for(
+          lck,
+          std::min<std::chrono::nanoseconds>(
+              std::chrono::nanoseconds{zuluDuration - elapsed},
+              std::chrono::hours{1}),
+          [this] { return _changed || _simulationStatus == Status::Hold; });
+      if (!_changed) {
+        continue;
+      }
+    }
+    // process immediate events posted while waiting
+    if (!ExecuteImmediateEvents()) {
+      return false;
+    }
+  }
+  return false;
+}
+
 void XsmpScheduler::_EnterExecuting() {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
-  auto startZuluTime = timeKeeper->GetZuluTime();
+  auto *eventManager = GetSimulator()->GetEventManager();
 
-  _simulationStatus = Status::Running;
+  // the zulu time of the current simulation time
+  auto zuluTime = timeKeeper->GetZuluTime();
 
   _load.clear();
   _speed.clear();
 
-  ::Smp::Duration delay = 0;
-
-  // process all immediate events
-  if (!ExecuteImmediateEvents()) {
-    return; // exit immediately in case of hold
-  }
-  auto *eventManager = GetSimulator()->GetEventManager();
-
-  // execute all events
-  while (HasEvents()) {
+  // process all immediate events, then all events
+  while (ExecuteImmediateEvents() && HasEvents()) {
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
                        false);
 
-    if (_simulationStatus == Status::Hold) {
-      return; // exit immediately if hold is requested
-    }
-    // take the next event now: SMP_PreSimTimeChange may have changed it
-    auto time = GetNextScheduledEventTime();
-    auto duration = time - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
-             (timeKeeper->GetZuluTime() - startZuluTime);
-
-    auto endZuluTime = timeKeeper->GetZuluTime();
-    // update speed
-    if (duration) {
-      _speed.AddSample(static_cast<double>(endZuluTime - startZuluTime) /
-                       static_cast<double>(duration));
-    }
-    startZuluTime = endZuluTime;
-
     // TODO handle free running
-    //  keep synchronized with zulu time
-    if (delay > 0) {
-
-      if (std::unique_lock lck2{_holdMutex};
-          _holdCv.wait_for(lck2, std::chrono::nanoseconds{delay}, [this] {
-            // continue to wait while Hold is not requested
-            return _simulationStatus == Status::Hold;
-          })) {
-        return; // exit immediately in case of hold
-      }
+    if (!WaitNextEvent(zuluTime)) {
+      break; // exit immediately in case of hold
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(time);
+    ::Smp::Duration time = 0;
+    {
+      // do not let another thread post an event in the past
+      const std::scoped_lock lck{_timeMutex};
+      time = GetNextScheduledEventTime();
+      timeKeeper->SetSimulationTime(time);
+    }
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
@@ -692,9 +735,11 @@ void XsmpScheduler::_EnterExecuting() {
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
     if (!ExecuteImmediateEvents() || !ExecuteEvents(time)) {
-      return; // exit immediately in case of hold
+      break; // exit immediately in case of hold
     }
   }
+  // be ready for the next run: a hold may be requested as soon as it starts
+  _simulationStatus = Status::Running;
 
   _load.clear();
   _speed.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index d82862c..9c10c47 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -411,10 +411,24 @@ private:
 
   std::condition_variable _holdCv;
   std::mutex _holdMutex;
+  bool _changed{}; // true if the events have changed (protected by _holdMutex)
+
+  // protects the simulation time while events are scheduled relative to it
+  // (always locked before _eventsMutex)
+  std::mutex _timeMutex;
+
+  /// Notify the simulation thread that the events have changed
+  void NotifyChange();
+
+  /// Wait until the next event is due
+  /// @param zuluTime the zulu time of the current simulation time, updated to
+  /// the one of the next event
+  /// @return false if hold immediate is requested
+  bool WaitNextEvent(::Smp::DateTime &zuluTime);
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
-  std::atomic<Status> _simulationStatus;
+  std::atomic<Status> _simulationStatus{Status::Running};
   bool _terminate{};
 
   // The thread that is executing an event: events are executed one at a time
-- 
2.43.0


From 8eeb3c8eac5de28a6cd853600241c2aa3e8a4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 43/72] fix: Simulator::Hold called by several threads

Two concurrent holds emitted SMP_LeaveExecuting twice (the second one could
stop a later run before its start), a hold requested while another one was
completed stayed pending, and Run could return before the state was Standby.
---
 src/Xsmp/Simulator.cpp | 40 +++++++++++++++++++++++++++++-----------
 src/Xsmp/Simulator.h   | 17 +++++++++++++++--
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index aca5298..f247440 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -301,6 +301,10 @@ void Simulator::Run() {
   _state = ::Smp::SimulatorStateKind::SSK_Executing;
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
+
+  // another thread may still be holding the simulation
+  std::unique_lock lck{_holdMutex};
+  _holdCv.wait(lck, [this] { return !_holding; });
 }
 
 void Simulator::Run(::Smp::Duration duration) {
@@ -343,9 +347,7 @@ void Simulator::Run(::Smp::Duration duration) {
 
 void Simulator::Hold(::Smp::Bool immediate) {
 
-  if (_state != ::Smp::SimulatorStateKind::SSK_Executing ||
-      _lastGlobalEventId ==
-          ::Smp::Services::IEventManager::SMP_LeaveExecutingId) {
+  if (!LeaveExecuting(immediate)) {
     if (_logger) {
       _logger->Log(this,
                    "Could not Hold the Simulation if simulator is not in "
@@ -356,23 +358,39 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
-    // a hold requested for the next simulation time change is now useless
-    CancelHoldRequest();
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  }
+}
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
+bool Simulator::LeaveExecuting(::Smp::Bool immediate) {
 
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
-  } else {
-    const std::scoped_lock lck{_holdMutex};
+  std::unique_lock lck{_holdMutex};
+  // several threads may hold the simulation at the same time
+  if (_state != ::Smp::SimulatorStateKind::SSK_Executing || _holding) {
+    return false;
+  }
+  if (!immediate) {
     if (_eventManager && !_holdRequested) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
       _holdRequested = true;
     }
+    return true;
   }
+  _holding = true;
+  lck.unlock();
+
+  // a hold requested for the next simulation time change is now useless
+  CancelHoldRequest();
+
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
+
+  lck.lock();
+  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  _holding = false;
+  _holdCv.notify_all();
+  return true;
 }
 
 void Simulator::CancelHoldRequest() {
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 711592d..ff1a94f 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -29,6 +29,8 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
+#include <atomic>
+#include <condition_variable>
 #include <list>
 #include <mutex>
 #include <utility>
@@ -381,7 +383,7 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
-  ::Smp::Services::EventId _lastGlobalEventId = -1;
+  std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
   Container<::Smp::IModel> _models;
@@ -396,11 +398,21 @@ private:
 
   /// true if _holdImmediately is subscribed (protected by _holdMutex)
   bool _holdRequested = false;
+  /// true while a thread enters Standby state from Executing state (protected
+  /// by _holdMutex)
+  bool _holding = false;
   std::mutex _holdMutex;
+  std::condition_variable _holdCv;
 
   /// Cancel a hold requested for the next simulation time change
   void CancelHoldRequest();
 
+  /// Leave Executing state
+  /// @param immediate true to enter Standby state now, false to enter it at the
+  /// next simulation time change
+  /// @return false if the simulator is not in Executing state
+  bool LeaveExecuting(::Smp::Bool immediate);
+
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
   ::Smp::Services::IResolver *_resolver = nullptr;
@@ -410,7 +422,8 @@ private:
   ::Smp::Services::ILogger *_logger = nullptr;
 
   mutable ::Xsmp::Publication::TypeRegistry _typeRegistry;
-  ::Smp::SimulatorStateKind _state = ::Smp::SimulatorStateKind::SSK_Building;
+  std::atomic<::Smp::SimulatorStateKind> _state{
+      ::Smp::SimulatorStateKind::SSK_Building};
 };
 
 } // namespace Xsmp
-- 
2.43.0


From cb765b1826a89114101e2b5af148e597807a0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 44/72] fix: XsmpScheduler crashed when an event is posted and
 the simulator has no logger

---
 src/Xsmp/Services/XsmpScheduler.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index fda7d93..edabb09 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -167,8 +167,10 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
   NotifyChange();
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  if (auto *logger = GetSimulator()->GetLogger()) {
+    logger->Log(entryPoint, "Event posted",
+                ::Smp::Services::ILogger::LMK_Debug);
+  }
 
   return _lastEventId;
 }
@@ -237,8 +239,10 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   }
   _zuluCv.notify_one();
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  if (auto *logger = GetSimulator()->GetLogger()) {
+    logger->Log(entryPoint, "Event posted",
+                ::Smp::Services::ILogger::LMK_Debug);
+  }
   return eventId;
 }
 
-- 
2.43.0


From 01f990cd1fa86da51bb0f5198acc1b77740d4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 45/72] fix: XsmpScheduler::Restore restores the zulu events

---
 src/Xsmp/Services/XsmpScheduler.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index edabb09..d03611e 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -636,9 +636,22 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
+                             _events_table, _immediate_events, _lastEventId);
+
+    // schedule again the zulu events
+    _zulu_events_table.clear();
+    for (const auto &[eventId, event] : _events) {
+      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+            .first->second.emplace(eventId);
+      }
+    }
+  }
+  _zuluCv.notify_one();
+  NotifyChange();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From 2878b0a90cbb550e233870e67697b323eb9ba4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 46/72] fix: an aborted simulation stays in Aborting state

Abort changed the state after SMP_EnterAborting and the operation that was
in progress put the simulator back in another state afterwards (so that, for
example, Run continued after an abort requested from SMP_LeaveStandby).
---
 src/Xsmp/Simulator.cpp | 72 ++++++++++++++++++++++++++++++++----------
 src/Xsmp/Simulator.h   |  5 +++
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index f247440..23c468b 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -214,7 +214,9 @@ void Simulator::Connect() {
     }
     return;
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Connecting;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Connecting)) {
+    return;
+  }
 
   recursive_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
@@ -230,7 +232,9 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
@@ -241,7 +245,9 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
@@ -268,7 +274,9 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
@@ -278,7 +286,9 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
@@ -298,7 +308,9 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Executing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
 
@@ -387,10 +399,9 @@ bool Simulator::LeaveExecuting(::Smp::Bool immediate) {
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
   lck.lock();
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
   _holding = false;
   _holdCv.notify_all();
-  return true;
+  return SetState(::Smp::SimulatorStateKind::SSK_Standby);
 }
 
 void Simulator::CancelHoldRequest() {
@@ -451,7 +462,9 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Storing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
@@ -460,7 +473,9 @@ void Simulator::Store(::Smp::String8 filename) {
   ::Xsmp::Store(this, &writer);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -515,14 +530,18 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Restoring)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -541,7 +560,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Reconnecting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
@@ -557,7 +578,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
@@ -576,7 +599,9 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
+  if (!SetState(::Smp::SimulatorStateKind::SSK_Exiting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
   // Disconnect all components properly
@@ -589,8 +614,21 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
+  if (_state.exchange(::Smp::SimulatorStateKind::SSK_Aborting) !=
+      ::Smp::SimulatorStateKind::SSK_Aborting) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
+  }
+}
+
+bool Simulator::SetState(::Smp::SimulatorStateKind state) {
+  // an aborted simulation remains in Aborting state
+  auto current = _state.load();
+  while (current != ::Smp::SimulatorStateKind::SSK_Aborting) {
+    if (_state.compare_exchange_weak(current, state)) {
+      return true;
+    }
+  }
+  return false;
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index ff1a94f..b6018fa 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -373,6 +373,11 @@ public:
   void Run(::Smp::Duration duration);
 
 private:
+  /// Change the state of the simulator, unless it is aborted
+  /// @param state the new state
+  /// @return false if the simulator is aborted
+  bool SetState(::Smp::SimulatorStateKind state);
+
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
   [[nodiscard]] ::Xsmp::Publication::Publication *
-- 
2.43.0


From 421dad5ed965f51aaea4dfb9610b021b3ce7c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 47/72] fix: immediate events posted before the scheduler waits
 are executed at once

---
 src/Xsmp/Services/XsmpScheduler.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index d03611e..6ae57de 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -678,6 +678,10 @@ bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime) {
       const std::scoped_lock lck{_holdMutex};
       _changed = false;
     }
+    // process immediate events posted meanwhile
+    if (!ExecuteImmediateEvents()) {
+      return false;
+    }
     const auto duration =
         GetNextScheduledEventTime() - timeKeeper->GetSimulationTime();
     const auto zuluDuration = static_cast<::Smp::Duration>(
@@ -694,22 +698,13 @@ bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime) {
       zuluTime += zuluDuration;
       return true;
     }
-    {
-      std::unique_lock lck{_holdMutex};
-      _holdCv.wait_for(
-          lck,
-          std::min<std::chrono::nanoseconds>(
-              std::chrono::nanoseconds{zuluDuration - elapsed},
-              std::chrono::hours{1}),
-          [this] { return _changed || _simulationStatus == Status::Hold; });
-      if (!_changed) {
-        continue;
-      }
-    }
-    // process immediate events posted while waiting
-    if (!ExecuteImmediateEvents()) {
-      return false;
-    }
+    std::unique_lock lck{_holdMutex};
+    _holdCv.wait_for(
+        lck,
+        std::min<std::chrono::nanoseconds>(
+            std::chrono::nanoseconds{zuluDuration - elapsed},
+            std::chrono::hours{1}),
+        [this] { return _changed || _simulationStatus == Status::Hold; });
   }
   return false;
 }
-- 
2.43.0


From 66adcce0f8f893fd41a8010c6b6b19d57de0253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 48/72] fix: no zulu event is executed while Simulator::Exit
 disconnects the components

---
 src/Xsmp/Services/XsmpScheduler.cpp | 9 +++++++--
 src/Xsmp/Services/XsmpScheduler.h   | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 6ae57de..342a187 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -99,11 +99,16 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_MissionTimeChangedId, &TimeChanged);
 
+  // no zulu event is executed while the components are disconnected
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterExitingId, &EnterExiting);
+
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
 
-void XsmpScheduler::DoDisconnect() {
-  // stop the zulu thread
+void XsmpScheduler::DoDisconnect() { StopZuluThread(); }
+
+void XsmpScheduler::StopZuluThread() {
   {
     const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
     _terminate = true;
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 9c10c47..702d5a8 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -492,6 +492,11 @@ private:
       "TimeChanged", "Reschedule the epoch and mission time events", this,
       [this] { UpdateEvents(); }};
 
+  /// Stop the zulu thread
+  void StopZuluThread();
+  ::Xsmp::EntryPoint EnterExiting{"EnterExiting", "Stop the zulu thread", this,
+                                  [this] { StopZuluThread(); }};
+
   /// @return true if at least one simulation/epoch/mission event is scheduled
   bool HasEvents() const;
 
-- 
2.43.0


From 1d07950f3ad2035126a6532025c8e8db313e2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 49/72] fix: no logger configuration makes the logger crash or
 stop writing

---
 src/Xsmp/Services/XsmpLogger.cpp | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..97ebcd2 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -42,6 +42,7 @@
 #include <optional>
 #include <queue>
 #include <regex>
+#include <sstream>
 #include <string>
 #include <string_view>
 #include <thread>
@@ -199,18 +200,22 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [&stream, this](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
-        value.to_stream(stream, fmt);
+        // an invalid format shall not put the log stream in a failed state
+        std::ostringstream formatted;
+        value.to_stream(formatted, fmt);
+        stream << formatted.str();
       }
     };
 
     auto it = _pattern.begin();
     while (it != _pattern.end()) {
-      if (*it == '%') {
+      // a '%' that ends the pattern is written as is
+      if (*it == '%' && std::next(it) != _pattern.end()) {
         ++it;
         switch (*it) {
         case 'p':
@@ -284,16 +289,19 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
-    std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
-        ++it;
-      }
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) {
+    auto begin = std::next(it);
+    if (begin == end || *begin != '{') {
+      return {};
     }
-    return formatting;
+    auto close = std::find(++begin, end, '}');
+    // without closing brace there is no format
+    if (close == end) {
+      return {};
+    }
+    it = close;
+    return {begin, close};
   }
 };
 class Appender {
@@ -315,7 +323,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From d016c4ad98f4305e13f7dda2e812fe9582952da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 50/72] fix: an event emitted by a global event subscriber does
 not hide the event being emitted

---
 src/Xsmp/Simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 23c468b..c913452 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -252,11 +252,12 @@ void Simulator::Connect() {
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
-  _lastGlobalEventId = eventId;
+  // an event may be emitted while another one is being emitted
+  const auto outerEventId = _lastGlobalEventId.exchange(eventId);
   if (_eventManager) {
     _eventManager->Emit(eventId);
   }
-  _lastGlobalEventId = -1;
+  _lastGlobalEventId = outerEventId;
 }
 
 void Simulator::Initialise() {
-- 
2.43.0


From 748f38f558f3d740537da114f05f352763d94c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 51/72] fix: Simulator::Reconnect emits SMP_LeaveReconnecting

---
 src/Xsmp/Simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index c913452..adff1d1 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -579,6 +579,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
   if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
     return;
   }
-- 
2.43.0


From efc6c0c810b96b61d4fb5e757b9456c0386f2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 52/72] fix: Simulator::Initialise executes all initialisation
 entry points again

---
 src/Xsmp/Simulator.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index adff1d1..4f0bdc3 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -237,9 +237,7 @@ void Simulator::Connect() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
+  for (auto const *entryPoint : _initEntryPoints) {
     entryPoint->Execute();
   }
 
@@ -280,9 +278,7 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
+  for (auto const *entryPoint : _initEntryPoints) {
     entryPoint->Execute();
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
-- 
2.43.0


From 3a9de40c8bba6f1f960dd6f988aac913ca7f0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 53/72] fix: Simulator::Store and Restore process the
 components of the containers

---
 src/Xsmp/Simulator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 4f0bdc3..ecb0f4d 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -437,7 +437,11 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         writer->Store(&kind, sizeof(PersistKind));
-        Store(container, writer);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Store(child, writer);
+          }
+        }
       }
     }
   }
@@ -506,7 +510,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         check(obj, reader, PersistKind::CONTAINER);
-        Restore(container, reader);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Restore(child, reader);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 61868b8013820c2f795faac3c6f343b1c6cbd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 54/72] fix: a failing Simulator::Store or Restore leaves the
 simulator in Standby state and is reported

---
 src/Xsmp/Simulator.cpp     | 42 +++++++++++++++++++++++++-------------
 src/Xsmp/StorageWriter.cpp |  8 ++++++++
 src/Xsmp/StorageWriter.h   |  4 ++++
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index ecb0f4d..5e0685a 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -40,6 +40,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <exception>
 #include <mutex>
 #include <string>
 #include <type_traits>
@@ -469,16 +470,23 @@ void Simulator::Store(::Smp::String8 filename) {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
-  StorageWriter writer{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Store(this, &writer);
+  // the simulator returns to Standby state even if the storage fails
+  std::exception_ptr error;
+  try {
+    StorageWriter writer{filename, PERSIST_FILENAME, this};
+    ::Xsmp::Store(this, &writer);
+    writer.Close();
+  } catch (...) {
+    error = std::current_exception();
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
-    return;
+  if (SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -539,16 +547,22 @@ void Simulator::Restore(::Smp::String8 filename) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
-  StorageReader reader{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Restore(this, &reader);
+  // the simulator returns to Standby state even if the storage fails
+  std::exception_ptr error;
+  try {
+    StorageReader reader{filename, PERSIST_FILENAME, this};
+    ::Xsmp::Restore(this, &reader);
+  } catch (...) {
+    error = std::current_exception();
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  if (!SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
-    return;
+  if (SetState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index d55d697..cf9e630 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -70,6 +70,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Close() {
+  // write what is still buffered
+  _os.close();
+  if (_os.fail()) {
+    ::Xsmp::Exception::throwCannotStore(_object, "Error while closing file");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..aad7f8c 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,10 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Close the state vector file.
+  /// @throws ::Smp::CannotStore if the data could not be written
+  void Close();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From a3770413ecca3529c87d444405e58ea5707c954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 55/72] fix: restoring an object reference without a resolver
 raises CannotRestore

---
 include/Xsmp/Persist/SmpIObject.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/SmpIObject.h b/include/Xsmp/Persist/SmpIObject.h
index 71fcf25..a2127f6 100644
--- a/include/Xsmp/Persist/SmpIObject.h
+++ b/include/Xsmp/Persist/SmpIObject.h
@@ -17,6 +17,7 @@
 
 #include <Smp/ISimulator.h>
 #include <Smp/Services/IResolver.h>
+#include <Xsmp/Exception.h>
 #include <Xsmp/Helper.h>
 #include <Xsmp/Persist.h>
 #include <string>
@@ -35,8 +36,13 @@ struct Helper<T *, std::enable_if_t<std::is_base_of_v<::Smp::IObject, T>>> {
                       ::Smp::IStorageReader *reader, T *&value) {
     std::string path;
     ::Xsmp::Persist::Restore(simulator, reader, path);
-    value = dynamic_cast<T *>(
-        simulator->GetResolver()->ResolveAbsolute(path.c_str()));
+    auto *resolver = simulator->GetResolver();
+    if (!resolver) {
+      ::Xsmp::Exception::throwCannotRestore(
+          simulator, "The reference to \"" + path +
+                         "\" cannot be restored without a Resolver.");
+    }
+    value = dynamic_cast<T *>(resolver->ResolveAbsolute(path.c_str()));
   }
 };
 
-- 
2.43.0


From 6c153980fa44d9c8bfc8f951abdd4dfdc6b17aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 56/72] fix: Simulator::Abort after Simulator::Exit does not
 crash

---
 src/Xsmp/Services/XsmpEventManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 40f04b4..d1d6020 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -184,7 +184,9 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
   const auto &event_name = GetEventName(event);
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  // an aborted simulation may have been exited before: no simulator anymore
+  const auto *simulator = GetSimulator();
+  if (auto *logger = simulator ? simulator->GetLogger() : nullptr) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
   auto subscriptionAccess = _subscriptions.read();
-- 
2.43.0


From 3352f7051cc6f3f791ea583580b72c47dfc18177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 57/72] fix: components added while the simulator drives the
 component tree are driven as well

---
 src/Xsmp/Simulator.cpp | 46 +++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 5e0685a..41ccde6 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -40,6 +40,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <cstddef>
 #include <exception>
 #include <mutex>
 #include <string>
@@ -77,39 +78,60 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
 
 namespace {
 template <typename Callable>
-void recursive_action(::Smp::IComposite const *composite, Callable &&func);
+bool recursive_action(::Smp::IComposite const *composite, Callable &&func);
 
 /// Execute an action on a components and all its children
 ///
 /// @param component the component
 /// @param func the action to execute
+/// @return true if the action changed the state of a component
 template <typename Callable>
-void recursive_action(::Smp::IComponent *component, Callable &&func) {
+bool recursive_action(::Smp::IComponent *component, Callable &&func) {
+  const auto state = component->GetState();
   func(component);
+  bool changed = component->GetState() != state;
   if (auto *composite = dynamic_cast<::Smp::IComposite *>(component)) {
-    recursive_action(composite, std::forward<Callable>(func));
+    changed |= recursive_action(composite, func);
   }
+  return changed;
 }
 
 template <typename Callable>
-void recursive_action(::Smp::IContainer const *container, Callable &&func) {
+bool recursive_action(::Smp::IContainer const *container, Callable &&func) {
+  bool changed = false;
   if (const auto *components = container->GetComponents()) {
-    for (auto *cmp : *components) {
-      recursive_action(cmp, std::forward<Callable>(func));
+    // the action may add components to the container
+    for (std::size_t i = 0; i < components->size(); ++i) {
+      changed |= recursive_action(components->at(i), func);
     }
   }
+  return changed;
 }
 
 /// Execute an action on all components inside a composite
 /// @param composite the composite
 /// @param func the action to execute
+/// @return true if the action changed the state of a component
 template <typename Callable>
-void recursive_action(::Smp::IComposite const *composite, Callable &&func) {
+bool recursive_action(::Smp::IComposite const *composite, Callable &&func) {
+  bool changed = false;
   if (const auto *containers = composite->GetContainers()) {
     for (auto const *container : *containers) {
-      recursive_action(container, std::forward<Callable>(func));
+      changed |= recursive_action(container, func);
     }
   }
+  return changed;
+}
+
+/// Execute an action on all components inside a composite, including those
+/// that are added by the action to a part of the composite already processed
+/// @param composite the composite
+/// @param func the action to execute
+template <typename Callable>
+void drive_components(::Smp::IComposite const *composite, Callable &&func) {
+  while (recursive_action(composite, func)) {
+    // some components may have been added
+  }
 }
 
 constexpr ::Smp::String8 initialiseSymbol = "Initialise";
@@ -175,7 +197,7 @@ void Simulator::Publish() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  drive_components(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -194,7 +216,7 @@ void Simulator::Configure() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  drive_components(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -219,7 +241,7 @@ void Simulator::Connect() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  drive_components(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -585,7 +607,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
-    recursive_action(composite, [this](::Smp::IComponent *cmp) {
+    drive_components(composite, [this](::Smp::IComponent *cmp) {
       if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
         cmp->Publish(CreatePublication(cmp));
       }
-- 
2.43.0


From b23469f3162314d4df781d7ecdd206b80bf55f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 58/72] fix: a failing Restore changes nothing in the event
 manager and the scheduler

---
 src/Xsmp/Services/XsmpEventManager.cpp | 18 ++++++++++++++----
 src/Xsmp/Services/XsmpScheduler.cpp    | 13 +++++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index d1d6020..e4176e3 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -32,6 +32,8 @@
 #include <algorithm>
 #include <mutex>
 #include <string>
+#include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace Xsmp::Services {
@@ -202,15 +204,23 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
-                           _subscriptions.write().get());
-  // rebuild _ids map from _events (locked in the same order as in QueryEventId)
-  auto eventsAccess = _events.read();
+  // nothing is changed when the restoration fails
+  std::unordered_map<std::string, ::Smp::Services::EventId> events;
+  std::unordered_map<::Smp::Services::EventId,
+                     std::vector<const ::Smp::IEntryPoint *>>
+      subscriptions;
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, subscriptions);
+
+  // locked in the same order as in QueryEventId
+  auto eventsAccess = _events.write();
   auto idsAccess = _ids.write();
+  // rebuild _ids map from _events
   idsAccess.get().clear();
+  eventsAccess.get() = std::move(events);
   for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
+  _subscriptions.write().get() = std::move(subscriptions);
 }
 
 void XsmpEventManager::Store(::Smp::IStorageWriter *writer) {
diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 342a187..9955416 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -643,8 +643,17 @@ void XsmpScheduler::InternalZuluRun() {
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
   {
     const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
-    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
-                             _events_table, _immediate_events, _lastEventId);
+    // nothing is changed when the restoration fails
+    decltype(_events) events;
+    decltype(_events_table) eventsTable;
+    decltype(_immediate_events) immediateEvents;
+    auto lastEventId = _lastEventId;
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, eventsTable,
+                             immediateEvents, lastEventId);
+    _events = std::move(events);
+    _events_table = std::move(eventsTable);
+    _immediate_events = std::move(immediateEvents);
+    _lastEventId = lastEventId;
 
     // schedule again the zulu events
     _zulu_events_table.clear();
-- 
2.43.0


From 61d04269e63f8e033e12cdfbf13930dcec0bce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 59/72] fix: registering the same factory twice keeps it
 registered

---
 src/Xsmp/FactoryCollection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Xsmp/FactoryCollection.cpp b/src/Xsmp/FactoryCollection.cpp
index 1ab8aa5..d24416f 100644
--- a/src/Xsmp/FactoryCollection.cpp
+++ b/src/Xsmp/FactoryCollection.cpp
@@ -59,6 +59,10 @@ void FactoryCollection::Add(::Smp::IFactory *factory) {
 
   auto factoryPointer = std::unique_ptr<::Smp::IFactory>(factory);
   if (auto it = _uuid_map.find(factory->GetUuid()); it != _uuid_map.end()) {
+    if (it->second.get() == factory) {
+      // the same factory again: it remains registered
+      static_cast<void>(factoryPointer.release());
+    }
     ::Xsmp::Exception::throwDuplicateUuid(this, it->second.get(),
                                           factory->GetName());
   }
-- 
2.43.0


From 8710e388141fb83eb331a9778ad642d252d8ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:33 +0000
Subject: [PATCH 60/72] fix: exceptions raised while a type or field is
 constructed have a sender that outlives it

---
 src/Xsmp/Publication/Field.cpp | 16 ++++++++--------
 src/Xsmp/Publication/Type.cpp  | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index e4ccb0f..b9abf56 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -46,13 +46,13 @@ bool isInvalidEnumerationValue(const ::Smp::Publication::IType *type,
              enumeration->GetLiterals().end();
 }
 
-void checkValidFieldType(const ::Smp::IField *field,
+void checkValidFieldType(const ::Smp::IObject *parent,
                          const ::Smp::Publication::IType *type) {
   // disallow fields with String8/void type
   if (type->GetUuid() == ::Smp::Uuids::Uuid_String8 ||
       type->GetUuid() == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        field, type->GetUuid(),
+        parent, type->GetUuid(),
         "Field does not support String8 and Void type.");
   }
 }
@@ -67,7 +67,7 @@ Field::Field(::Smp::String8 name, ::Smp::String8 description,
       _state(state), _input(input), _output(output) {
   // type must be defined
   if (!type) {
-    ::Xsmp::Exception::throwInvalidFieldType(this, type);
+    ::Xsmp::Exception::throwInvalidFieldType(parent, type);
   }
 }
 Field::Field(::Smp::String8 name, ::Smp::String8 description,
@@ -254,7 +254,7 @@ AnonymousSimpleArrayField::AnonymousSimpleArrayField(
     : Field(name, description, parent, address, type, view, state, input,
             output),
       _count(count >= 0 ? static_cast<::Smp::UInt64>(count) : 0) {
-  checkValidFieldType(this, type);
+  checkValidFieldType(parent, type);
 }
 
 void AnonymousSimpleArrayField::Restore(::Smp::IStorageReader *reader) {
@@ -461,7 +461,7 @@ ArrayField::ArrayField(::Smp::String8 name, ::Smp::String8 description,
                        ::Smp::Bool input, ::Smp::Bool output)
     : Field(name, description, parent, address, type, view, state, input,
             output) {
-  checkValidFieldType(this, type);
+  checkValidFieldType(parent, type);
   for (::Smp::UInt64 i = 0, size = type->GetSize(); i < size; ++i) {
     /// The parent of the item is the parent of the array
     /// The item name is "[" + index + "]"
@@ -507,7 +507,7 @@ SimpleArrayField::SimpleArrayField(::Smp::String8 name,
             output),
       _size(type->GetSize()), _itemType(type->GetItemType()),
       _itemSize(type->GetItemSize()) {
-  checkValidFieldType(this, type);
+  checkValidFieldType(parent, type);
 }
 
 void SimpleArrayField::Restore(::Smp::IStorageReader *reader) {
@@ -661,7 +661,7 @@ SimpleField::SimpleField(::Smp::String8 name, ::Smp::String8 description,
                          ::Smp::Bool input, ::Smp::Bool output)
     : Field(name, description, parent, address, type, view, state, input,
             output) {
-  checkValidFieldType(this, type);
+  checkValidFieldType(parent, type);
 }
 void SimpleField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
@@ -838,7 +838,7 @@ StructureField::StructureField(::Smp::String8 name, ::Smp::String8 description,
                          field.view, field.state, field.input || input,
                          field.output || output));
     } else {
-      ::Xsmp::Exception::throwTypeNotRegistered(this, field.uuid);
+      ::Xsmp::Exception::throwTypeNotRegistered(parent, field.uuid);
     }
   }
 }
diff --git a/src/Xsmp/Publication/Type.cpp b/src/Xsmp/Publication/Type.cpp
index 9f4c75a..4e4040e 100644
--- a/src/Xsmp/Publication/Type.cpp
+++ b/src/Xsmp/Publication/Type.cpp
@@ -63,12 +63,12 @@ ArrayType::ArrayType(::Smp::String8 name, ::Smp::String8 description,
       _simpleArray(simpleArray) {
 
   if (!_itemType) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, itemTypeUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, itemTypeUuid);
   }
   if (itemTypeUuid == ::Smp::Uuids::Uuid_String8 ||
       itemTypeUuid == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, itemTypeUuid,
+        typeRegistry, itemTypeUuid,
         "ArrayType does not support String8 and Void item type.");
   }
 }
@@ -207,16 +207,16 @@ ClassType::ClassType(::Smp::String8 name, ::Smp::String8 description,
   }
   if (baseClassUuid == typeUuid) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid,
+        typeRegistry, baseClassUuid,
         "The base class must be different from the current class.");
   }
   auto *baseClass = typeRegistry->GetType(baseClassUuid);
   if (!baseClass) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, baseClassUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, baseClassUuid);
   }
   if (!dynamic_cast<::Smp::Publication::IClassType *>(baseClass)) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid, "A base class must be void or a class type.");
+        typeRegistry, baseClassUuid, "A base class must be void or a class type.");
   }
 }
 
-- 
2.43.0


From f38041193631b50f31ebfb938812da43bb73f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 61/72] fix: request values beyond the range of a type raise
 the documented exceptions

---
 src/Xsmp/Publication/Request.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..895c5b7 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -19,6 +19,7 @@
 #include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/ITypeRegistry.h>
 #include <Smp/Uuid.h>
+#include <Smp/utility.h>
 #include <Xsmp/Exception.h>
 #include <Xsmp/Publication/Request.h>
 #include <Xsmp/Publication/Type.h>
@@ -40,6 +41,11 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    // a value beyond the range of Int64 is beyond any maximum
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        !::Smp::utility::in_range<::Smp::Int64>(value.value.uInt64Value)) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -68,8 +74,10 @@ bool Request::isValid(const ::Smp::IObject *sender,
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    auto enumValue = static_cast<::Smp::Int64>(value);
+    if (!::Smp::utility::in_range<::Smp::Int32>(enumValue) ||
+        enumType->GetLiterals().find(static_cast<::Smp::Int32>(enumValue)) ==
+            enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From 78afeda0f49afc99a4e9b3aca8f5a7c9ec800d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 62/72] fix: InvalidParameterIndex of a property setter reports
 its parameter count

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From 1ad745e154cec54f60dd44a4f0aff84988b61c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 63/72] fix: publishing a field of an unsupported type raises
 InvalidFieldType

---
 src/Xsmp/Publication/Field.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index b9abf56..2aab102 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -51,9 +51,7 @@ void checkValidFieldType(const ::Smp::IObject *parent,
   // disallow fields with String8/void type
   if (type->GetUuid() == ::Smp::Uuids::Uuid_String8 ||
       type->GetUuid() == ::Smp::Uuids::Uuid_Void) {
-    ::Xsmp::Exception::throwIncompatibleType(
-        parent, type->GetUuid(),
-        "Field does not support String8 and Void type.");
+    ::Xsmp::Exception::throwInvalidFieldType(parent, type);
   }
 }
 } // namespace
-- 
2.43.0


From 67966ead07b4cf32c0a4a6751b99e3ffb23ca718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 64/72] fix: a field cannot be published under the name of a
 field object published before

---
 src/Xsmp/Publication/Publication.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..d236e36 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -34,6 +34,17 @@
 
 namespace Xsmp::Publication {
 
+namespace {
+/// the name of a new field shall differ from all the published ones, including
+/// the fields published as objects
+void checkDuplicateField(const ::Smp::FieldCollection &fields,
+                         ::Smp::String8 name) {
+  if (fields.at(name)) {
+    ::Xsmp::Exception::throwDuplicateName(&fields, name, &fields);
+  }
+}
+} // namespace
+
 Publication::Publication(::Smp::IObject *parent,
                          ::Smp::Publication::ITypeRegistry *typeRegistry)
     : _parent(parent), _typeRegistry{typeRegistry},
@@ -146,6 +157,7 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
+    checkDuplicateField(_allFields, name);
     _fields.Add(Field::Create(name, description, _parent, address, type, view,
                               state, input, output));
   } else {
@@ -160,6 +172,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::PrimitiveTypeKind type,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
+  checkDuplicateField(_allFields, name);
   if (output) {
     _fields.Add<AnonymousSimpleArrayDataflowField>(
         name, description, _parent, count, address,
@@ -175,6 +188,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
+  checkDuplicateField(_allFields, name);
   return _fields.Add<AnonymousArrayField>(name, description, _parent,
                                           _typeRegistry, view, state);
 }
@@ -183,6 +197,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
+  checkDuplicateField(_allFields, name);
   return _fields.Add<AnonymousStructureField>(name, description, _parent,
                                               _typeRegistry, view, state);
 }
-- 
2.43.0


From a7b1a5611d245eca3dbf8adf647ba99e3e6b5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 65/72] fix: a failed restoration leaves the times unchanged

---
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2447378..a1763a5 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -93,13 +93,21 @@ void XsmpTimeKeeper::SetSimulationTime(::Smp::Duration simulationTime) {
 }
 
 void XsmpTimeKeeper::Restore(::Smp::IStorageReader *reader) {
+  // nothing is changed when the restoration fails
+  ::Smp::Duration simulationTime = 0;
+  ::Smp::DateTime missionStartTime = 0;
+  ::Smp::Duration epochStart = 0;
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, simulationTime,
+                           missionStartTime, epochStart);
+
   // lock in the same order as the other methods: the evaluation order of
   // function arguments is unspecified
-  auto simulationTime = _simulationTime.write();
-  auto epochStart = _epochStart.write();
-  auto missionStartTime = _missionStartTime.write();
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, simulationTime.get(),
-                           missionStartTime.get(), epochStart.get());
+  auto simulationTimeAccess = _simulationTime.write();
+  auto epochStartAccess = _epochStart.write();
+  auto missionStartTimeAccess = _missionStartTime.write();
+  simulationTimeAccess.get() = simulationTime;
+  epochStartAccess.get() = epochStart;
+  missionStartTimeAccess.get() = missionStartTime;
 }
 
 void XsmpTimeKeeper::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From fd2b7e9d4a037d7fd69d50b14e27d97423723e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 66/72] fix: a failed restoration leaves the log message kinds
 unchanged

---
 src/Xsmp/Services/XsmpLogger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 97ebcd2..db0e6a5 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -615,8 +615,10 @@ void XsmpLogger::Log(const ::Smp::IObject *sender, ::Smp::String8 message,
 }
 
 void XsmpLogger::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader,
-                           _logMessageKinds.write().get());
+  // nothing is changed when the restoration fails
+  std::vector<std::string> logMessageKinds;
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, logMessageKinds);
+  _logMessageKinds.write().get() = std::move(logMessageKinds);
 }
 
 void XsmpLogger::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From b88322701cc89a01e8e0c69d9e98ead853dc686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:53 +0000
Subject: [PATCH 67/72] fix: a value refused by a connected input is raised to
 the writer

---
 include/Xsmp/Field.h | 56 ++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index 657484f..fe62c0a 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -477,38 +477,38 @@ public:
   const_pointer operator->() const noexcept { return &_value; }
   pointer operator->() noexcept { return &_value; }
 
-  SimpleField &operator=(const T &value) noexcept { return SetValue(value); }
+  SimpleField &operator=(const T &value) { return SetValue(value); }
 
-  SimpleField &operator++() noexcept { return SetValue(_value + 1); }
-  SimpleField &operator--() noexcept { return SetValue(_value - 1); }
-  template <typename U> SimpleField &operator<<=(const U &_i) noexcept {
+  SimpleField &operator++() { return SetValue(_value + 1); }
+  SimpleField &operator--() { return SetValue(_value - 1); }
+  template <typename U> SimpleField &operator<<=(const U &_i) {
     return SetValue(_value << _i);
   }
-  template <typename U> SimpleField &operator>>=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator>>=(const U &_i) {
     return SetValue(_value >> _i);
   }
-  template <typename U> SimpleField &operator+=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator+=(const U &_i) {
     return SetValue(_value + _i);
   }
-  template <typename U> SimpleField &operator-=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator-=(const U &_i) {
     return SetValue(_value - _i);
   }
-  template <typename U> SimpleField &operator*=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator*=(const U &_i) {
     return SetValue(_value * _i);
   }
-  template <typename U> SimpleField &operator/=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator/=(const U &_i) {
     return SetValue(_value / _i);
   }
-  template <typename U> SimpleField &operator%=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator%=(const U &_i) {
     return SetValue(_value % _i);
   }
-  template <typename U> SimpleField &operator&=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator&=(const U &_i) {
     return SetValue(_value & _i);
   }
-  template <typename U> SimpleField &operator|=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator|=(const U &_i) {
     return SetValue(_value | _i);
   }
-  template <typename U> SimpleField &operator^=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator^=(const U &_i) {
     return SetValue(_value ^ _i);
   }
 
@@ -846,55 +846,55 @@ public:
 
     const value_type *operator->() const noexcept { return &_value; }
 
-    protected_reference &operator=(const value_type &value) noexcept {
+    protected_reference &operator=(const value_type &value) {
       return SetValue(value);
     }
 
-    protected_reference &operator++() noexcept { return SetValue(_value + 1); }
-    protected_reference &operator--() noexcept { return SetValue(_value - 1); }
+    protected_reference &operator++() { return SetValue(_value + 1); }
+    protected_reference &operator--() { return SetValue(_value - 1); }
     template <typename U>
-    protected_reference &operator<<=(const U &_i) noexcept {
+    protected_reference &operator<<=(const U &_i) {
       return SetValue(_value << _i);
     }
     template <typename U>
-    protected_reference &operator>>=(const U &_i) noexcept {
+    protected_reference &operator>>=(const U &_i) {
       return SetValue(_value >> _i);
     }
     template <typename U>
-    protected_reference &operator+=(const U &_i) noexcept {
+    protected_reference &operator+=(const U &_i) {
       return SetValue(_value + _i);
     }
     template <typename U>
-    protected_reference &operator-=(const U &_i) noexcept {
+    protected_reference &operator-=(const U &_i) {
       return SetValue(_value - _i);
     }
     template <typename U>
-    protected_reference &operator*=(const U &_i) noexcept {
+    protected_reference &operator*=(const U &_i) {
       return SetValue(_value * _i);
     }
     template <typename U>
-    protected_reference &operator/=(const U &_i) noexcept {
+    protected_reference &operator/=(const U &_i) {
       return SetValue(_value / _i);
     }
     template <typename U>
-    protected_reference &operator%=(const U &_i) noexcept {
+    protected_reference &operator%=(const U &_i) {
       return SetValue(_value % _i);
     }
     template <typename U>
-    protected_reference &operator&=(const U &_i) noexcept {
+    protected_reference &operator&=(const U &_i) {
       return SetValue(_value & _i);
     }
     template <typename U>
-    protected_reference &operator|=(const U &_i) noexcept {
+    protected_reference &operator|=(const U &_i) {
       return SetValue(_value | _i);
     }
     template <typename U>
-    protected_reference &operator^=(const U &_i) noexcept {
+    protected_reference &operator^=(const U &_i) {
       return SetValue(_value ^ _i);
     }
 
   private:
-    inline protected_reference &SetValue(const value_type &value) noexcept {
+    inline protected_reference &SetValue(const value_type &value) {
       _value = value;
       _parent->internal_push(_index);
       return *this;
@@ -999,7 +999,7 @@ public:
     _value.fill(_u);
     push_all();
   }
-  void swap(T &_other) noexcept {
+  void swap(T &_other) {
     _value.swap(_other);
     push_all();
   }
-- 
2.43.0


From 4f1823aa24bfa1f8629acd643ec13f830eb05bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:52 +0000
Subject: [PATCH 68/72] fix: the removal of the event the simulation waits for
 makes time jump

---
 src/Xsmp/Services/XsmpScheduler.cpp | 14 ++++++++------
 src/Xsmp/Services/XsmpScheduler.h   |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 9955416..3750836 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -682,7 +682,8 @@ void XsmpScheduler::_LeaveExecuting() {
   _holdCv.notify_one();
 }
 
-bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime) {
+bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime,
+                                  ::Smp::Duration &time) {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
 
@@ -696,8 +697,8 @@ bool XsmpScheduler::WaitNextEvent(::Smp::DateTime &zuluTime) {
     if (!ExecuteImmediateEvents()) {
       return false;
     }
-    const auto duration =
-        GetNextScheduledEventTime() - timeKeeper->GetSimulationTime();
+    time = GetNextScheduledEventTime();
+    const auto duration = time - timeKeeper->GetSimulationTime();
     const auto zuluDuration = static_cast<::Smp::Duration>(
         std::min(static_cast<double>(duration) / _targetSpeed,
                  static_cast<double>(MaxDuration / 2)));
@@ -742,16 +743,17 @@ void XsmpScheduler::_EnterExecuting() {
                        false);
 
     // TODO handle free running
-    if (!WaitNextEvent(zuluTime)) {
+    ::Smp::Duration time = 0;
+    if (!WaitNextEvent(zuluTime, time)) {
       break; // exit immediately in case of hold
     }
 
     // change the simulation time
-    ::Smp::Duration time = 0;
     {
       // do not let another thread post an event in the past
       const std::scoped_lock lck{_timeMutex};
-      time = GetNextScheduledEventTime();
+      // do not go further than awaited if the event has been removed or moved
+      time = std::min(time, GetNextScheduledEventTime());
       timeKeeper->SetSimulationTime(time);
     }
 
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 702d5a8..901ba50 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -424,7 +424,7 @@ private:
   /// @param zuluTime the zulu time of the current simulation time, updated to
   /// the one of the next event
   /// @return false if hold immediate is requested
-  bool WaitNextEvent(::Smp::DateTime &zuluTime);
+  bool WaitNextEvent(::Smp::DateTime &zuluTime, ::Smp::Duration &time);
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
-- 
2.43.0


From ac3223511d072e71770cbb441d081e0e05f1284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 69/72] fix: a restoration made while a zulu event is executed
 corrupts the restored events

---
 src/Xsmp/Services/XsmpScheduler.cpp | 9 +++++++--
 src/Xsmp/Services/XsmpScheduler.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 3750836..a214afe 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -497,6 +497,7 @@ void XsmpScheduler::ExecuteZuluEvent() {
     }
   }
   const auto &event = _events.at(eventId);
+  const auto restorations = _restorations;
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -505,8 +506,11 @@ void XsmpScheduler::ExecuteZuluEvent() {
     ExecuteEntryPoint(eventId, event.entryPoint, lck);
   }
 
-  const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-  Reschedule(eventId, _zulu_events_table);
+  // the events may have been restored during its execution
+  if (restorations == _restorations) {
+    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    Reschedule(eventId, _zulu_events_table);
+  }
 }
 
 void XsmpScheduler::ExecuteEntryPoint(::Smp::Services::EventId eventId,
@@ -654,6 +658,7 @@ void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
     _events_table = std::move(eventsTable);
     _immediate_events = std::move(immediateEvents);
     _lastEventId = lastEventId;
+    ++_restorations;
 
     // schedule again the zulu events
     _zulu_events_table.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 901ba50..94606f0 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -404,6 +404,7 @@ private:
   EventList _immediate_events;
   std::map<::Smp::Services::EventId, Event> _events;
   ::Smp::Services::EventId _lastEventId{-1};
+  ::Smp::UInt64 _restorations{}; // protected by _eventsMutex
 
   // The current EventId that is being executed
   ::Smp::Services::EventId _currentEventId{-1};
-- 
2.43.0


From 0c5021a24958d0162a63f9b6806c822b5b55263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:00 +0000
Subject: [PATCH 70/72] fix: a new target speed is not applied while the
 simulation waits for the next event

---
 src/Xsmp/Services/XsmpScheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index a214afe..84fa4ff 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -129,6 +129,7 @@ void XsmpScheduler::SetTargetSpeed(double speed) {
   } else {
     _targetSpeed = speed;
   }
+  NotifyChange();
 }
 
 double XsmpScheduler::GetTargetSpeed() const noexcept { return _targetSpeed; }
-- 
2.43.0


From a64f4601adfeb5917c630db7da206e72ae2154e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:05 +0000
Subject: [PATCH 71/72] fix: InvalidAnyType of requests and event sinks tells
 the expected type as the invalid one

---
 src/Xsmp/EventSink.cpp           | 4 ++--
 src/Xsmp/Publication/Request.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 895c5b7..ba6071e 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -36,8 +36,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(
+        sender, type->GetPrimitiveTypeKind(), value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From 2bbff87fcaf55771183269195d46d86536a6e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:13 +0000
Subject: [PATCH 72/72] fix: the sender of what Xsmp::Request raises for a
 composed value is a released field

---
 src/Xsmp/Request.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Request.cpp b/src/Xsmp/Request.cpp
index 73b4b6a..67327f5 100644
--- a/src/Xsmp/Request.cpp
+++ b/src/Xsmp/Request.cpp
@@ -15,10 +15,12 @@
 #include <Smp/AnySimple.h>
 #include <Smp/IArrayField.h>
 #include <Smp/IComponent.h>
+#include <Smp/IObject.h>
 #include <Smp/IRequest.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
 #include <Smp/IStructureField.h>
+#include <Smp/InvalidFieldValue.h>
 #include <Smp/PrimitiveTypes.h>
 #include <Xsmp/Exception.h>
 #include <Xsmp/Request.h>
@@ -26,6 +28,29 @@
 
 namespace Xsmp {
 
+namespace {
+
+/// The fields used to convert a composed value only live during the call:
+/// report the object that owns them.
+const ::Smp::IObject *GetOwner(const ::Smp::IObject *object) {
+  while (dynamic_cast<const ::Smp::IField *>(object)) {
+    object = object->GetParent();
+  }
+  return object;
+}
+
+template <typename SetValue>
+void SetFieldValue(const ::Smp::IField *field, ::Smp::String8 name,
+                   const ::Smp::AnySimple &value, SetValue &&setValue) {
+  try {
+    setValue(value);
+  } catch (const ::Smp::InvalidFieldValue &) {
+    ::Xsmp::Exception::throwInvalidParameterValue(GetOwner(field), name, value);
+  }
+}
+
+} // namespace
+
 void Request::setValue(::Smp::IComponent const *component,
                        ::Smp::IRequest *request, ::Smp::String8 name,
                        const ::Smp::AnySimple &value) {
@@ -73,11 +98,13 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
         return;
       }
       ::Xsmp::Exception::throwException(
-          field, name,
+          GetOwner(field), name,
           "No Parameter named " + std::string(name) + " in Operation " +
               request->GetOperationName() + ".");
     }
-    simple->SetValue(request->GetParameterValue(index));
+    SetFieldValue(
+        field, name, request->GetParameterValue(index),
+        [simple](const ::Smp::AnySimple &value) { simple->SetValue(value); });
   }
   // simple array field
   else if (auto *simpleArray =
@@ -87,12 +114,16 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
           std::string(name) + "[" + std::to_string(i) + "]";
       const auto index = request->GetParameterIndex(itemName.c_str());
       if (index != -1) {
-        simpleArray->SetValue(i, request->GetParameterValue(index));
+        SetFieldValue(field, itemName.c_str(),
+                      request->GetParameterValue(index),
+                      [simpleArray, i](const ::Smp::AnySimple &value) {
+                        simpleArray->SetValue(i, value);
+                      });
       } else if (ignoreMissingParameters) {
         // ignore
       } else {
         ::Xsmp::Exception::throwException(
-            field, itemName,
+            GetOwner(field), itemName,
             "No Parameter named " + itemName + " in Operation " +
                 request->GetOperationName() + ".");
       }
@@ -129,7 +160,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
     const auto index = request->GetParameterIndex(name);
     if (index == -1) {
       ::Xsmp::Exception::throwException(
-          field, name,
+          GetOwner(field), name,
           "No Parameter named " + std::string(name) + " in Operation " +
               request->GetOperationName() + ".");
     }
@@ -144,7 +175,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
       const auto index = request->GetParameterIndex(itemName.c_str());
       if (index == -1) {
         ::Xsmp::Exception::throwException(
-            field, itemName,
+            GetOwner(field), itemName,
             "No Parameter named " + itemName + " in Operation " +
                 request->GetOperationName() + ".");
       }
-- 
2.43.0

