From 36da2f1bc86941c35e5414935634611e5ecf242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 01/30] fix: make pointers to and optionals of variants
 serializable to JSON

The overload of push() for variants was not visible when instantiating the one for
pointers and optionals so e.g. std::optional<std::variant<...>> did not compile.
---
 lib/json/reflector.h | 67 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..36c1a54 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -134,6 +134,57 @@ void push(
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> * = nullptr>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
 
+// declare the overloads for nested values so all of them are considered regardless in which order they are nested
+
+/*!
+ * \brief Pushes the specified iteratable (eg. std::vector, std::list) to the specified value.
+ */
+template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::HasSize<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified iteratable list (eg. std::vector, std::list) to the specified value.
+ */
+template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::Not<Traits::HasSize<Type>>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified map (std::map, std::unordered_map) to the specified value.
+ */
+template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
+ */
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified tuple to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified pair to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
+ */
+template <typename Type,
+    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified variant to the specified value.
+ */
+template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
 /*!
  * \brief Pushes the specified \a reflectable which has a custom type to the specified value.
  */
@@ -214,7 +265,7 @@ inline void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAP
 /*!
  * \brief Pushes the specified iteratable (eg. std::vector, std::list) to the specified value.
  */
-template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::HasSize<Type>> * = nullptr>
+template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::HasSize<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -228,7 +279,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified iteratable list (eg. std::vector, std::list) to the specified value.
  */
-template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::Not<Traits::HasSize<Type>>> * = nullptr>
+template <typename Type, Traits::EnableIf<IsArrayOrSet<Type>, Traits::Not<Traits::HasSize<Type>>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -241,7 +292,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified map (std::map, std::unordered_map) to the specified value.
  */
-template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>> * = nullptr>
+template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetObject();
@@ -254,7 +305,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
  */
-template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetObject();
@@ -296,7 +347,7 @@ template <class Tuple> struct TuplePushHelper<Tuple, 1> {
 /*!
  * \brief Pushes the specified tuple to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -308,7 +359,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified pair to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -322,7 +373,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
  * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
  */
 template <typename Type,
-    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (!reflectable) {
@@ -335,7 +386,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified variant to the specified value.
  */
-template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (reflectable.valueless_by_exception()) {
-- 
2.43.0


From 20bf0356763b964757b43f6bd405d4c48298544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/30] fix: copy map keys into the JSON document

The document only referred to the keys of (multi)maps so it contained dangling pointers
once the map was gone. Keys of maps were additionally cut at the first NUL character.
---
 lib/json/reflector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 36c1a54..7d41c90 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -298,7 +298,9 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator), memberValue;
+        push(item.second, memberValue, allocator);
+        object.AddMember(memberName, memberValue, allocator);
     }
 }
 
@@ -318,7 +320,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(memberName, newArrayValue, allocator);
+            value.AddMember(RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator), newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From 049373da97171ae5c099ab0fc0ce257a8f54e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 03/30] fix: preserve NUL characters when deserializing strings
 and map keys from JSON

---
 lib/json/reflector.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 7d41c90..a769f68 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -657,7 +657,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -807,7 +807,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -826,13 +826,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(
+                typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(
+                typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1195,7 +1197,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return std::string(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 5847f77c70b07ff7f9d1bfb878e2944abca2d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 04/30] fix: avoid undefined behaviour when deserializing sets
 from JSON

A duplicate was reported via a null pointer if no error collector was supplied and an
uninitialized value was inserted in case of a type mismatch.
---
 lib/json/reflector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index a769f68..2dba9a8 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -752,7 +752,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -780,9 +780,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From ffc023ae5d4ecd32c1f55ee39ec1ffffa7235cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 05/30] fix: restore index of outer array in error context
 after nested array

---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 2dba9a8..9241e5a 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -718,6 +718,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -729,9 +730,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -745,6 +746,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -757,9 +759,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -773,6 +775,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -787,9 +790,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From 7d6b524231d08a9a2b0b040eb3b575ffc2dbfe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 06/30] fix: allow errors about invalid variants to be fatal

These kinds of errors were never thrown, not even when using ThrowOn::All.
---
 lib/json/errorhandling.h | 22 ++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..a84beeb 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,24 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports that an object which is supposed to represent an std::variant lacks the index or data member.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports that the index of an object representing an std::variant is not a number or out of the expected range.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9241e5a..de0552b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -971,8 +971,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -997,16 +996,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From df461f21f3d18b379b39e615e34134d3c2985ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 07/30] fix: report expected JSON type of tuples, pairs,
 multimaps and custom maps correctly

---
 lib/json/errorhandling.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index a84beeb..f48fecf 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,7 +6,7 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
-#include <c++utilities/misc/traits.h>
+#include "../traits.h"
 
 #include <rapidjson/rapidjson.h>
 
@@ -14,6 +14,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -62,20 +64,19 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
     return JsonType::String;
 }
 
-template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
-constexpr JsonType jsonType()
+template <typename Type>
+using IsMappedToJsonArray
+    = Traits::Any<Traits::All<Traits::IsIteratable<Type>, Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>,
+        Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>>;
+
+template <typename Type, Traits::EnableIf<IsMappedToJsonArray<Type>> * = nullptr> constexpr JsonType jsonType()
 {
     return JsonType::Array;
 }
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        IsMappedToJsonArray<Type>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 822f182015f0d3e3ce828af7913446e0f3ea85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 08/30] fix: report numbers exceeding the range of the type
 they are deserialized to

The behaviour was undefined when deserializing a JSON number exceeding the range of an
integer type and 8-bit integers and enumeration items were silently truncated.
---
 lib/json/reflector.h | 54 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index de0552b..ee6a5a3 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -578,6 +579,25 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+namespace Detail {
+
+/*!
+ * \brief Returns whether \a number is within the range of \tparam Type (ignoring fractions in case of integers).
+ */
+template <typename Type> inline bool isWithinRange(double number)
+{
+    if constexpr (std::is_floating_point_v<Type>) {
+        return std::isfinite(static_cast<Type>(number));
+    } else {
+        // compare with the power of two above the maximum because the maximum itself is not necessarily representable as double
+        using Limits = std::numeric_limits<Type>;
+        const auto integer = std::trunc(number);
+        return integer >= static_cast<double>(Limits::min()) && integer < std::ldexp(1.0, Limits::digits);
+    }
+}
+
+} // namespace Detail
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
  */
@@ -593,7 +613,13 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+    } else if (Detail::isWithinRange<Type>(value.GetDouble())) {
+        reflectable = static_cast<Type>(value.GetDouble());
+    } else if (errors) {
+        errors->reportConversionError(JsonType::Number);
+    }
 }
 
 /*!
@@ -603,10 +629,16 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
-    pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (!value.IsNumber()) {
+        if (errors) {
+            errors->reportTypeMismatch<Type>(value.GetType());
+        }
+        return;
+    }
+    if (Detail::isWithinRange<Type>(value.GetDouble())) {
+        reflectable = static_cast<Type>(value.GetDouble());
+    } else if (errors) {
+        errors->reportConversionError(JsonType::Number);
     }
 }
 
@@ -634,14 +666,22 @@ template <typename Type, Traits::EnableIfAny<std::is_enum<Type>> * = nullptr>
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    using ExpectedType = Traits::Conditional<std::is_unsigned<typename std::underlying_type<Type>::type>, std::uint64_t, std::int64_t>;
+    using UnderlyingType = typename std::underlying_type<Type>::type;
+    using ExpectedType = Traits::Conditional<std::is_unsigned<UnderlyingType>, std::uint64_t, std::int64_t>;
     if (!value.Is<ExpectedType>()) {
         if (errors) {
             errors->reportTypeMismatch<ExpectedType>(value.GetType());
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    const auto number = value.Get<ExpectedType>();
+    if (number < std::numeric_limits<UnderlyingType>::min() || number > std::numeric_limits<UnderlyingType>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From 16ae2a3c5c51d8dad1029c7798ba2a660e73bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 09/30] fix: clear previous contents of maps when deserializing
 from JSON

This is consistent with how arrays and sets are handled.
---
 lib/json/reflector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index ee6a5a3..da65f55 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -848,6 +848,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
@@ -866,6 +867,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-- 
2.43.0


From 9c7e3e9be13cb10774c9154fb53246b4b1908eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 10/30] fix: deserialize single numbers from JSON like number
 members

fromJson<double>() could not handle integers and fromJson() could not be used with 8-bit
integers at all.
---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index da65f55..26cb32b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1215,14 +1215,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    auto res = Type();
+    pull<Type>(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From e3c9bfebc318bb43f6d906944cb95721eaa53b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 11/30] fix: allow serializing single strings via toJson()

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 26cb32b..cef0913 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1183,7 +1183,7 @@ template <typename Type,
         Traits::IsString<Type>, IsArray<Type>> * = nullptr>
 RAPIDJSON_NAMESPACE::StringBuffer toJson(const Type &reflectable)
 {
-    auto document(toJsonDocument(reflectable));
+    auto document(toJsonDocument<Type>(reflectable));
     return serializeJsonDocToString(document);
 }
 
-- 
2.43.0


From 947fac754cdf80c09cb9d2721aba416f7fa3a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 12/30] fix: report date/time values of wrong JSON type only
 once and leave them untouched

Deserialization continued after a type mismatch so another error was reported and time
spans were reset.
---
 lib/json/reflector-chronoutilities.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..2aee8e7 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -41,10 +41,14 @@ template <>
 inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    std::string str;
-    pull(str, value, errors);
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     try {
-        reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
+        reflectable = CppUtilities::DateTime::fromIsoStringGmt(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
@@ -56,10 +60,14 @@ template <>
 inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    std::string str;
-    pull(str, value, errors);
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     try {
-        reflectable = CppUtilities::TimeSpan::fromString(str.data());
+        reflectable = CppUtilities::TimeSpan::fromString(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
-- 
2.43.0


From 75a4acabe896477d7031a404b6115b46f5f87ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 13/30] fix: clear previous contents of maps and sets when
 deserializing from binary

This is consistent with how arrays are handled.
---
 lib/binary/reflector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..27d762b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -184,6 +184,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +198,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
-- 
2.43.0


From 52fa17dbd522f981d2cd99fa01135dfbb7c7edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 14/30] fix: make fromBinary() usable for versioned classes

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From 0ba2e0ba465fbf9c12f2d91dc5c83b62b74d4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 15/30] fix: distinguish multimap keys which are equal up to a
 NUL character

The key was looked up as null-terminated string so values of different keys ended up under
the same key.
---
 lib/json/reflector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index cef0913..fe8a75e 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -313,7 +313,8 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 {
     value.SetObject();
     for (const auto &item : reflectable) {
-        const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
+        const auto memberName
+            = RAPIDJSON_NAMESPACE::Value(RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size())));
         const auto existingMember = value.FindMember(memberName);
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
-- 
2.43.0


From b260a460e3f63a22d84eb3e1bbbc4eccd2c8969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 16/30] fix: serialize single strings to JSON with their actual
 length

The string was treated as null-terminated string so it was cut at the first NUL character
and string views might have been read beyond their end. Null pointers were not handled.
---
 lib/json/reflector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index fe8a75e..f2996cc 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1140,7 +1140,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1151,7 +1151,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * =
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1162,7 +1162,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From b9b73cc96a751a511c308acd506983eb39ea6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 17/30] fix: distinguish objects of different types at the same
 address when serializing shared pointers

---
 lib/binary/reflector.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 27d762b..53deeb0 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -16,9 +16,12 @@
 
 #include <any>
 #include <limits>
+#include <map>
 #include <memory>
 #include <optional>
 #include <string>
+#include <typeindex>
+#include <utility>
 #include <variant>
 
 /// \cond
@@ -115,7 +118,11 @@ public:
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> void write(const Type &customType, BinaryVersion version = 0);
 
 private:
+    std::uint64_t pointerId(const void *address, std::type_index type);
+
     std::unordered_map<std::uint64_t, bool> m_pointer;
+    std::unordered_map<std::uint64_t, std::type_index> m_pointerType;
+    std::map<std::pair<std::uint64_t, std::type_index>, std::uint64_t> m_aliasId;
 };
 
 inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
@@ -271,13 +278,25 @@ void BinarySerializer::write(const Type &opt)
     }
 }
 
+/// \brief Returns the ID of the object with the specified \a type at the specified \a address.
+/// \remarks The address is used as ID unless an object of a different type has already been written for the same address, e.g. when
+///          there are pointers to an object and to its first member. Then an ID which cannot be the address of an object is used.
+inline std::uint64_t BinarySerializer::pointerId(const void *address, std::type_index type)
+{
+    const auto id = static_cast<std::uint64_t>(reinterpret_cast<std::uintptr_t>(address));
+    if (m_pointerType.try_emplace(id, type).first->second == type) {
+        return id;
+    }
+    return m_aliasId.try_emplace({ id, type }, std::numeric_limits<std::uint64_t>::max() - m_aliasId.size()).first->second;
+}
+
 template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> *> void BinarySerializer::write(const Type &pointer)
 {
     if (pointer == nullptr) {
         writeByte(0);
         return;
     }
-    const auto id = reinterpret_cast<std::uintptr_t>(pointer.get());
+    const auto id = pointerId(pointer.get(), typeid(typename Type::element_type));
     const auto bigId = id >= 0x80000000000000;
     auto &alreadyWritten = m_pointer[id];
     std::uint8_t mode = alreadyWritten ? 2 : 1;
-- 
2.43.0


From a85c1b382775a87a1eb799715e2336b2ec22ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 18/30] fix: pass version on to elements of containers,
 pointers and variants

---
 lib/binary/reflector.h | 125 +++++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 49 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 53deeb0..47c9279 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -54,6 +54,11 @@ using IsBuiltInType = Traits::Any<Traits::IsAnyOf<Type, char, std::uint8_t, bool
     IsVariant<Type>>;
 template <typename Type> using IsCustomType = Traits::Not<IsBuiltInType<Type>>;
 
+// define trait for "built-in" types which possibly contain custom types so the version needs to be passed on
+template <typename Type>
+using IsCompositeType = Traits::Any<IsIteratableExceptString<Type>,
+    Traits::IsSpecializingAnyOf<Type, std::pair, std::unique_ptr, std::shared_ptr, std::optional>, IsVariant<Type>>;
+
 class BinaryDeserializer;
 class BinarySerializer;
 
@@ -80,19 +85,26 @@ public:
     explicit BinaryDeserializer(std::istream *stream);
 
     using CppUtilities::BinaryReader::read;
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr> void read(Type &pair);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> * = nullptr> void read(Type &iteratable);
-    template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> * = nullptr> void read(Type &iteratable);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+    void read(Type &pair, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> * = nullptr>
+    void read(Type &iteratable, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> * = nullptr>
+    void read(Type &iteratable, BinaryVersion version = 0);
     template <typename Type,
         Traits::EnableIf<IsIteratableExceptString<Type>,
             Traits::None<IsMapOrHash<Type>, IsMultiMapOrHash<Type>, Traits::All<IsArray<Type>, Traits::IsResizable<Type>>>> * = nullptr>
-    void read(Type &iteratable);
+    void read(Type &iteratable, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<std::is_enum<Type>> * = nullptr> void read(Type &enumValue);
-    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void read(Type &variant);
-    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> * = nullptr> BinaryVersion read(Type &builtInType, BinaryVersion version);
+    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void read(Type &variant, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsCompositeType<Type>>> * = nullptr>
+    BinaryVersion read(Type &builtInType, BinaryVersion version);
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> BinaryVersion read(Type &customType, BinaryVersion version = 0);
 
 private:
@@ -107,14 +119,18 @@ public:
     explicit BinarySerializer(std::ostream *stream);
 
     using CppUtilities::BinaryWriter::write;
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr> void write(const Type &pair);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+    void write(const Type &pair, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::optional>> * = nullptr>
-    void write(const Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> * = nullptr> void write(const Type &pointer);
-    template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> * = nullptr> void write(const Type &iteratable);
+    void write(const Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> * = nullptr>
+    void write(const Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> * = nullptr>
+    void write(const Type &iteratable, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<std::is_enum<Type>> * = nullptr> void write(const Type &enumValue);
-    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void write(const Type &variant);
-    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> * = nullptr> void write(const Type &builtInType, BinaryVersion version);
+    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void write(const Type &variant, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsCompositeType<Type>>> * = nullptr>
+    void write(const Type &builtInType, BinaryVersion version);
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> void write(const Type &customType, BinaryVersion version = 0);
 
 private:
@@ -130,23 +146,26 @@ inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
 {
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *> void BinaryDeserializer::read(Type &pair)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
+void BinaryDeserializer::read(Type &pair, BinaryVersion version)
 {
-    read(pair.first);
-    read(pair.second);
+    read(pair.first, version);
+    read(pair.second, version);
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *> void BinaryDeserializer::read(Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *>
+void BinaryDeserializer::read(Type &pointer, BinaryVersion version)
 {
     if (!readBool()) {
         pointer.reset();
         return;
     }
     pointer = std::make_unique<typename Type::element_type>();
-    read(*pointer);
+    read(*pointer, version);
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> *> void BinaryDeserializer::read(Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> *>
+void BinaryDeserializer::read(Type &pointer, BinaryVersion version)
 {
     auto mode = readByte();
     if (!mode) {
@@ -159,7 +178,7 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::
     if ((mode & 0x3) == 1) {
         // first occurrence: make a new pointer
         m_pointer[id] = pointer = std::make_shared<typename Type::element_type>();
-        read(*pointer);
+        read(*pointer, version);
         return;
     }
     // further occurrences: copy previous pointer
@@ -170,31 +189,34 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::
     }
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> *> void BinaryDeserializer::read(Type &opt)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> *>
+void BinaryDeserializer::read(Type &opt, BinaryVersion version)
 {
     if (readBool()) {
-        read(opt.emplace());
+        read(opt.emplace(), version);
     } else {
         opt.reset();
     }
 }
 
-template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> *> void BinaryDeserializer::read(Type &iteratable)
+template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> *>
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
     iteratable.resize(size);
     for (auto &element : iteratable) {
-        read(element);
+        read(element, version);
     }
 }
 
-template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
+template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *>
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
     iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
-        read(value);
+        read(value, version);
         iteratable.emplace(std::move(value));
     }
 }
@@ -202,13 +224,13 @@ template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash
 template <typename Type,
     Traits::EnableIf<IsIteratableExceptString<Type>,
         Traits::None<IsMapOrHash<Type>, IsMultiMapOrHash<Type>, Traits::All<IsArray<Type>, Traits::IsResizable<Type>>>> *>
-void BinaryDeserializer::read(Type &iteratable)
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
     iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
-        read(value);
+        read(value, version);
         iteratable.emplace(std::move(value));
     }
 }
@@ -223,17 +245,17 @@ template <typename Type, Traits::EnableIf<std::is_enum<Type>> *> void BinaryDese
 /// \cond
 namespace Detail {
 template <typename Variant, std::size_t compiletimeIndex = 0>
-void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant, BinaryDeserializer &deserializer)
+void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant, BinaryDeserializer &deserializer, BinaryVersion version)
 {
     if constexpr (compiletimeIndex < std::variant_size_v<Variant>) {
         if (compiletimeIndex == runtimeIndex) {
             if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
                 variant = std::monostate{};
             } else {
-                deserializer.read(variant.template emplace<compiletimeIndex>());
+                deserializer.read(variant.template emplace<compiletimeIndex>(), version);
             }
         } else {
-            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
+            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer, version);
         }
     } else {
         throw CppUtilities::ConversionException("Variant index is out of expected range");
@@ -242,12 +264,13 @@ void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant,
 } // namespace Detail
 /// \endcond
 
-template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeserializer::read(Type &variant)
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeserializer::read(Type &variant, BinaryVersion version)
 {
-    Detail::readVariantValueByRuntimeIndex(readByte(), variant, *this);
+    Detail::readVariantValueByRuntimeIndex(readByte(), variant, *this, version);
 }
 
-template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
+template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsCompositeType<Type>>> *>
+BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
 {
     read(builtInType);
     return version;
@@ -263,18 +286,19 @@ inline BinarySerializer::BinarySerializer(std::ostream *stream)
 {
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *> void BinarySerializer::write(const Type &pair)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
+void BinarySerializer::write(const Type &pair, BinaryVersion version)
 {
-    write(pair.first);
-    write(pair.second);
+    write(pair.first, version);
+    write(pair.second, version);
 }
 
 template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::optional>> *>
-void BinarySerializer::write(const Type &opt)
+void BinarySerializer::write(const Type &opt, BinaryVersion version)
 {
     writeBool(static_cast<bool>(opt));
     if (opt) {
-        write(*opt);
+        write(*opt, version);
     }
 }
 
@@ -290,7 +314,8 @@ inline std::uint64_t BinarySerializer::pointerId(const void *address, std::type_
     return m_aliasId.try_emplace({ id, type }, std::numeric_limits<std::uint64_t>::max() - m_aliasId.size()).first->second;
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> *> void BinarySerializer::write(const Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> *>
+void BinarySerializer::write(const Type &pointer, BinaryVersion version)
 {
     if (pointer == nullptr) {
         writeByte(0);
@@ -311,16 +336,16 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std:
     }
     if (!alreadyWritten) {
         alreadyWritten = true;
-        write(*pointer);
+        write(*pointer, version);
     }
 }
 
 template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> *>
-void BinarySerializer::write(const Type &iteratable)
+void BinarySerializer::write(const Type &iteratable, BinaryVersion version)
 {
     writeVariableLengthUIntBE(iteratable.size());
     for (const auto &element : iteratable) {
-        write(element);
+        write(element, version);
     }
 }
 
@@ -329,22 +354,24 @@ template <typename Type, Traits::EnableIf<std::is_enum<Type>> *> void BinarySeri
     write(static_cast<typename std::underlying_type<Type>::type>(enumValue));
 }
 
-template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySerializer::write(const Type &variant)
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySerializer::write(const Type &variant, BinaryVersion version)
 {
     static_assert(std::variant_size_v<Type> < std::numeric_limits<std::uint8_t>::max(), "index will not exceed limit");
     writeByte(static_cast<std::uint8_t>(variant.index()));
     std::visit(
-        [this](const auto &valueOfActualType) {
+        [this, version](const auto &valueOfActualType) {
             if constexpr (!std::is_same_v<std::decay_t<decltype(valueOfActualType)>, std::monostate>) {
-                write(valueOfActualType);
+                write(valueOfActualType, version);
             } else {
                 CPP_UTILITIES_UNUSED(this)
+                CPP_UTILITIES_UNUSED(version)
             }
         },
         variant);
 }
 
-template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
+template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsCompositeType<Type>>> *>
+void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
 {
     CPP_UTILITIES_UNUSED(version)
     write(builtInType);
-- 
2.43.0


From 7798f7ce8aba61cc9686af84ddc942c1679d3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 19/30] fix: write nested versioned classes using a version
 which can be read again

---
 lib/versioning.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/versioning.h b/lib/versioning.h
index 42968a9..a89faeb 100644
--- a/lib/versioning.h
+++ b/lib/versioning.h
@@ -39,9 +39,11 @@ template <typename Type> struct Versioning<Type, true> {
     static constexpr auto enabled = Type::version != 0;
     static constexpr auto serializationDefault = Type::version;
     static constexpr auto maxSupported = Type::version;
+    /// \brief Sets \a version to the default if it is not specified or not supported (e.g. because it is the version of an outer class with
+    ///        a higher version).
     static constexpr auto &applyDefault(std::remove_const_t<decltype(serializationDefault)> &version)
     {
-        if (!version) {
+        if (!version || !isSupported(version)) {
             version = serializationDefault;
         }
         return version;
-- 
2.43.0


From 027bf9000036c8ed8fbdf82ac84dc4784b45ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 20/30] fix: (de)serialize members of indirect base classes
 only once

---
 generator/serializationcodegenerator.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..ea204a0 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -8,6 +8,7 @@
 #include <clang/AST/PrettyPrinter.h>
 #include <clang/AST/QualTypeNames.h>
 
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -121,13 +122,26 @@ std::vector<SerializationCodeGenerator::RelevantClass> SerializationCodeGenerato
     return relevantClasses;
 }
 
+/*!
+ * \brief Returns the relevant base classes of the specified \a relevantClass.
+ * \remarks Does *not* return base classes of other returned classes because the code for those already covers their base classes.
+ */
 std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCodeGenerator::findRelevantBaseClasses(
     const SerializationCodeGenerator::RelevantClass &relevantClass, const std::vector<SerializationCodeGenerator::RelevantClass> &relevantBases)
 {
-    vector<const RelevantClass *> relevantBaseClasses;
+    vector<const RelevantClass *> allRelevantBaseClasses;
     for (const RelevantClass &otherClass : relevantBases) {
         if (relevantClass.record != otherClass.record && relevantClass.record->isDerivedFrom(otherClass.record)) {
-            relevantBaseClasses.push_back(&otherClass);
+            allRelevantBaseClasses.push_back(&otherClass);
+        }
+    }
+    vector<const RelevantClass *> relevantBaseClasses;
+    for (const RelevantClass *const baseClass : allRelevantBaseClasses) {
+        const auto isCoveredBy = [baseClass](const RelevantClass *otherClass) {
+            return otherClass->record != baseClass->record && otherClass->record->isDerivedFrom(baseClass->record);
+        };
+        if (none_of(allRelevantBaseClasses.begin(), allRelevantBaseClasses.end(), isCoveredBy)) {
+            relevantBaseClasses.push_back(baseClass);
         }
     }
     return relevantBaseClasses;
-- 
2.43.0


From 8b5f48ed04ea63fc4969b3d480222dfb38590169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 21/30] fix: consider base classes defined in included files
 when generating code

---
 .../binaryserializationcodegenerator.cpp      |  3 ++-
 generator/jsonserializationcodegenerator.cpp  |  3 ++-
 generator/serializationcodegenerator.cpp      | 22 +++++++++++++++++++
 generator/serializationcodegenerator.h        |  1 +
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 3f12fe6..12532e4 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -202,6 +202,7 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
     if (relevantClasses.empty()) {
         return; // nothing to generate
     }
+    const auto possibleBaseClasses = findPossibleBaseClasses();
 
     // put everything into namespace ReflectiveRapidJSON::BinaryReflector
     os << "namespace ReflectiveRapidJSON {\n"
@@ -239,7 +240,7 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
         }
 
         // find relevant base classes
-        const vector<const RelevantClass *> relevantBases = findRelevantBaseClasses(relevantClass, relevantClasses);
+        const vector<const RelevantClass *> relevantBases = findRelevantBaseClasses(relevantClass, possibleBaseClasses);
 
         // print comment
         os << "// define code for (de)serializing " << relevantClass.qualifiedName << " objects\n";
diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index 435c0a4..c494184 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -69,6 +69,7 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
     if (relevantClasses.empty()) {
         return; // nothing to generate
     }
+    const auto possibleBaseClasses = findPossibleBaseClasses();
 
     // put everything into namespace ReflectiveRapidJSON::JsonReflector
     os << "namespace ReflectiveRapidJSON {\n"
@@ -106,7 +107,7 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
         }
 
         // find relevant base classes
-        const vector<const RelevantClass *> relevantBases = findRelevantBaseClasses(relevantClass, relevantClasses);
+        const vector<const RelevantClass *> relevantBases = findRelevantBaseClasses(relevantClass, possibleBaseClasses);
 
         // print comment
         os << "// define code for (de)serializing " << relevantClass.qualifiedName << " objects\n";
diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ea204a0..37b8c97 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -122,6 +122,28 @@ std::vector<SerializationCodeGenerator::RelevantClass> SerializationCodeGenerato
     return relevantClasses;
 }
 
+/*!
+ * \brief Returns all classes to consider when searching for relevant base classes of relevant classes.
+ * \remarks In contrast to findRelevantClasses() this includes classes which are only included because code for (de)serializing
+ *          those is supposed to be generated when invoking the generator for the included file.
+ */
+std::vector<SerializationCodeGenerator::RelevantClass> SerializationCodeGenerator::findPossibleBaseClasses() const
+{
+    std::vector<RelevantClass> possibleBaseClasses;
+    for (clang::CXXRecordDecl *const record : m_records) {
+        auto &possibleBaseClass = possibleBaseClasses.emplace_back(record->getQualifiedNameAsString(), record);
+        computeRelevantClass(possibleBaseClass);
+        const auto isAdaption = [&](const RelevantClass &adaptionRecord) { return adaptionRecord.qualifiedName == possibleBaseClass.qualifiedName; };
+        if (possibleBaseClass.isRelevant != IsRelevant::Yes
+            && (!record->isCompleteDefinition()
+                || (!inheritsFromInstantiationOf(record, m_qualifiedNameOfRecords)
+                    && none_of(m_adaptionRecords.begin(), m_adaptionRecords.end(), isAdaption)))) {
+            possibleBaseClasses.pop_back();
+        }
+    }
+    return possibleBaseClasses;
+}
+
 /*!
  * \brief Returns the relevant base classes of the specified \a relevantClass.
  * \remarks Does *not* return base classes of other returned classes because the code for those already covers their base classes.
diff --git a/generator/serializationcodegenerator.h b/generator/serializationcodegenerator.h
index 23a3236..56c6c57 100644
--- a/generator/serializationcodegenerator.h
+++ b/generator/serializationcodegenerator.h
@@ -34,6 +34,7 @@ public:
 protected:
     virtual void computeRelevantClass(RelevantClass &possiblyRelevantClass) const;
     std::vector<RelevantClass> findRelevantClasses() const;
+    std::vector<RelevantClass> findPossibleBaseClasses() const;
     static std::vector<const RelevantClass *> findRelevantBaseClasses(
         const RelevantClass &relevantClass, const std::vector<RelevantClass> &relevantBases);
 
-- 
2.43.0


From 7853256956c573d9936575beeca7a3b79ba1dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 22/30] fix: evaluate version markers specified as constant
 expressions

---
 .../binaryserializationcodegenerator.cpp      | 55 ++++---------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 12532e4..acbc45a 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -7,9 +7,6 @@
 #include <clang/AST/DeclFriend.h>
 #include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Expr.h>
-#include <clang/AST/RecursiveASTVisitor.h>
-
-#include <llvm/ADT/APInt.h>
 
 #include <iostream>
 
@@ -61,42 +58,16 @@ void BinarySerializationCodeGenerator::computeRelevantClass(RelevantClass &possi
     }
 }
 
-/// \brief The RetrieveIntegerLiteralFromDeclaratorDecl struct is used to traverse a variable declaration to get the integer value.
-struct RetrieveIntegerLiteralFromDeclaratorDecl : public clang::RecursiveASTVisitor<RetrieveIntegerLiteralFromDeclaratorDecl> {
-    explicit RetrieveIntegerLiteralFromDeclaratorDecl(const clang::ASTContext &ctx);
-    bool VisitStmt(clang::Stmt *st);
-    const clang::ASTContext &ctx;
-    std::uint64_t res;
-    bool success;
-};
-
-/// \brief Constructs a new instance for the specified AST context.
-RetrieveIntegerLiteralFromDeclaratorDecl::RetrieveIntegerLiteralFromDeclaratorDecl(const clang::ASTContext &ctx)
-    : ctx(ctx)
-    , res(0)
-    , success(false)
-{
-}
-
-/// \brief Reads the integer value of \a st for integer literals.
-bool RetrieveIntegerLiteralFromDeclaratorDecl::VisitStmt(clang::Stmt *st)
+/*!
+ * \brief Returns the integer value the specified \a varDecl is initialized with or nothing if the value is no constant integer.
+ */
+static std::optional<std::uint64_t> evaluateInteger(const clang::VarDecl *varDecl)
 {
-    if (st->getStmtClass() != clang::Stmt::IntegerLiteralClass) {
-        return true;
-    }
-    const auto *const integerLiteral = static_cast<const clang::IntegerLiteral *>(st);
-    auto evaluation = clang::Expr::EvalResult();
-    integerLiteral->EvaluateAsInt(evaluation, ctx, clang::Expr::SE_NoSideEffects, true);
-    if (!evaluation.Val.isInt()) {
-        return true;
-    }
-    const auto &asInt = evaluation.Val.getInt();
-    if (asInt.getActiveBits() > 64) {
-        return true;
+    const auto *const value = varDecl->hasInit() && !varDecl->getInit()->isValueDependent() ? varDecl->evaluateValue() : nullptr;
+    if (!value || !value->isInt() || value->getInt().getActiveBits() > 64) {
+        return std::nullopt;
     }
-    res = asInt.getZExtValue();
-    success = true;
-    return false;
+    return value->getInt().getZExtValue();
 }
 
 /// \brief The MemberTracking struct is an internal helper for BinarySerializationCodeGenerator::generate().
@@ -120,20 +91,18 @@ bool MemberTracking::checkForVersionMarker(clang::Decl *decl)
     if (decl->getKind() != clang::Decl::Kind::Var) {
         return false;
     }
-    auto *const declarator = static_cast<clang::DeclaratorDecl *>(decl);
+    auto *const declarator = static_cast<clang::VarDecl *>(decl);
     const auto declarationName = declarator->getName();
     const auto isAsOfVersion = startsStrRefWith<llvm::StringRef>(declarationName, "rrjAsOfVersion");
     if (isAsOfVersion || startsStrRefWith<llvm::StringRef>(declarationName, "rrjUntilVersion")) {
-        auto v = RetrieveIntegerLiteralFromDeclaratorDecl(declarator->getASTContext());
-        v.TraverseDecl(declarator);
-        if (v.success) {
+        if (const auto version = evaluateInteger(declarator)) {
             if (isAsOfVersion) {
-                asOfVersion = v.res;
+                asOfVersion = *version;
                 if (asOfVersion > untilVersion) {
                     untilVersion = 0;
                 }
             } else {
-                untilVersion = v.res;
+                untilVersion = *version;
                 if (untilVersion < asOfVersion) {
                     asOfVersion = 0;
                 }
-- 
2.43.0


From cbd8f1829e21bf6664aca2b3645fabd745929917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 23/30] fix: report errors when the generated code cannot be
 written completely

---
 generator/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..cb7970f 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -57,9 +57,9 @@ int main(int argc, char *argv[])
     }
 
     // setup output stream
+    ofstream outputFile;
     ostream *os = nullptr;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
@@ -127,6 +127,12 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // ensure the output has actually been written before reporting success
+        os->flush();
+        if (!*os) {
+            throw std::ios_base::failure("unable to flush output stream");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From 73ed36675e60fb03fdb8f785da19c60589be5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 24/30] fix: reject date/time strings containing NUL characters

---
 lib/json/reflector-chronoutilities.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 2aee8e7..ce9bdf5 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -14,6 +14,8 @@
 #include <c++utilities/chrono/timespan.h>
 #include <c++utilities/conversion/conversionexception.h>
 
+#include <cstring>
+
 namespace ReflectiveRapidJSON {
 namespace JsonReflector {
 
@@ -48,6 +50,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
         return;
     }
     try {
+        if (std::strlen(value.GetString()) != value.GetStringLength()) {
+            throw CppUtilities::ConversionException("unexpected NUL character");
+        }
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
@@ -67,6 +72,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
         return;
     }
     try {
+        if (std::strlen(value.GetString()) != value.GetStringLength()) {
+            throw CppUtilities::ConversionException("unexpected NUL character");
+        }
         reflectable = CppUtilities::TimeSpan::fromString(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
-- 
2.43.0


From eca74a20efc1d364c81079879755d9bfdbd6f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 25/30] fix: clear previous elements of arrays when
 deserializing from binary

---
 lib/binary/reflector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 47c9279..ac318d9 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -203,6 +203,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     iteratable.resize(size);
     for (auto &element : iteratable) {
         read(element, version);
-- 
2.43.0


From 876d4a5a731f68d55ad1594a2cbc610770e1bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 26/30] fix: do not generate invalid code for class templates,
 their specializations and explicit instantiations

---
 generator/serializationcodegenerator.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index 37b8c97..dd8cc45 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -23,6 +23,19 @@ ostream &operator<<(ostream &os, llvm::StringRef str)
     return os.write(str.data(), static_cast<streamsize>(str.size()));
 }
 
+/*!
+ * \brief Returns whether the specified \a record is a class template, an instantiation/specialization of one or nested in one.
+ */
+static bool isTemplated(const clang::CXXRecordDecl *record)
+{
+    for (const clang::DeclContext *context = record; context; context = context->getParent()) {
+        if (llvm::isa<clang::ClassTemplateSpecializationDecl>(context)) {
+            return true;
+        }
+    }
+    return record->isDependentContext();
+}
+
 /*!
  * \brief Adds all class declarations (to the internal member variable m_records).
  * \remarks "AdaptedXXXSerializable" specializations are directly filtered and added to m_adaptionRecords (instead of m_records).
@@ -59,6 +72,11 @@ void SerializationCodeGenerator::addDeclaration(clang::Decl *decl)
             }
         }
 
+        // skip templates because generating code for those is not supported
+        if (isTemplated(record)) {
+            return;
+        }
+
         // add any other records
         m_records.emplace_back(record);
     } break;
-- 
2.43.0


From 4b07b1d2b777322f4185d377dada4bc9fb7a4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 27/30] fix: consider only befriended helper functions for the
 class itself

---
 generator/binaryserializationcodegenerator.cpp |  4 ++++
 generator/jsonserializationcodegenerator.cpp   |  4 ++++
 generator/serializationcodegenerator.cpp       | 13 +++++++++++++
 generator/serializationcodegenerator.h         |  5 +++++
 4 files changed, 26 insertions(+)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index acbc45a..ddd4f8c 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -195,6 +195,10 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
             if (!actualFriendDecl || actualFriendDecl->getKind() != clang::Decl::Kind::Function) {
                 continue;
             }
+            // skip helper functions for other classes
+            if (!isHelperFor(relevantClass, actualFriendDecl)) {
+                continue;
+            }
             // check whether the friend function matches the push/pull helper function
             const string friendName(actualFriendDecl->getQualifiedNameAsString());
             if (friendName == "ReflectiveRapidJSON::BinaryReflector::writeCustomType") {
diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index c494184..829c7a8 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -93,6 +93,10 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
             if (!actualFriendDecl || actualFriendDecl->getKind() != clang::Decl::Kind::Function) {
                 continue;
             }
+            // skip helper functions for other classes
+            if (!isHelperFor(relevantClass, actualFriendDecl)) {
+                continue;
+            }
             // check whether the friend function matches the push/pull helper function
             const string friendName(actualFriendDecl->getQualifiedNameAsString());
             if (friendName == "ReflectiveRapidJSON::JsonReflector::push") {
diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index dd8cc45..a51b885 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -187,4 +187,17 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
     return relevantBaseClasses;
 }
 
+/*!
+ * \brief Returns whether the specified \a friendFunction takes the \a relevantClass as parameter.
+ * \remarks Used to skip helper functions for other classes, e.g. to give those access to nested classes.
+ */
+bool SerializationCodeGenerator::isHelperFor(const RelevantClass &relevantClass, const clang::NamedDecl *friendFunction)
+{
+    const auto parameters = static_cast<const clang::FunctionDecl *>(friendFunction)->parameters();
+    return any_of(parameters.begin(), parameters.end(), [&relevantClass](const clang::ParmVarDecl *parameter) {
+        const auto *const record = parameter->getType().getNonReferenceType()->getAsCXXRecordDecl();
+        return record && record->getCanonicalDecl() == relevantClass.record->getCanonicalDecl();
+    });
+}
+
 } // namespace ReflectiveRapidJSON
diff --git a/generator/serializationcodegenerator.h b/generator/serializationcodegenerator.h
index 56c6c57..ff48f10 100644
--- a/generator/serializationcodegenerator.h
+++ b/generator/serializationcodegenerator.h
@@ -7,6 +7,10 @@
 
 #include <optional>
 
+namespace clang {
+class NamedDecl;
+}
+
 namespace ReflectiveRapidJSON {
 
 std::ostream &operator<<(std::ostream &os, llvm::StringRef str);
@@ -37,6 +41,7 @@ protected:
     std::vector<RelevantClass> findPossibleBaseClasses() const;
     static std::vector<const RelevantClass *> findRelevantBaseClasses(
         const RelevantClass &relevantClass, const std::vector<RelevantClass> &relevantBases);
+    static bool isHelperFor(const RelevantClass &relevantClass, const clang::NamedDecl *friendFunction);
 
 protected:
     const char *m_qualifiedNameOfRecords;
-- 
2.43.0


From 57c1b5ec017a458385bad2efc1bad7d952fd38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 28/30] fix: parse input files as C++17 by default as required
 by the library's own headers

---
 generator/codefactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codefactory.cpp b/generator/codefactory.cpp
index 46f7bf9..53ec0aa 100644
--- a/generator/codefactory.cpp
+++ b/generator/codefactory.cpp
@@ -53,7 +53,7 @@ CodeFactory::~CodeFactory()
 std::vector<string> CodeFactory::makeClangArgs() const
 {
     static const initializer_list<std::string_view> flags
-        = { m_applicationPath, "-x", "c++", "-Wno-pragma-once-outside-header", "-std=c++14", "-fsyntax-only", "-D" PROJECT_VARNAME_UPPER };
+        = { m_applicationPath, "-x", "c++", "-Wno-pragma-once-outside-header", "-std=c++17", "-fsyntax-only", "-D" PROJECT_VARNAME_UPPER };
     vector<string> clangArgs;
     clangArgs.reserve(flags.size() + m_clangOptions.size() + m_sourceFiles.size());
     clangArgs.insert(clangArgs.end(), flags.begin(), flags.end());
-- 
2.43.0


From d110acbf627f3ef563c830fde634ff4e63f48e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 29/30] fix: interpret a relative OUTPUT_DIRECTORY relative to
 the build directory and create it

---
 lib/cmake/modules/ReflectionGenerator.cmake | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/cmake/modules/ReflectionGenerator.cmake b/lib/cmake/modules/ReflectionGenerator.cmake
index ea3231b..adf5fcd 100644
--- a/lib/cmake/modules/ReflectionGenerator.cmake
+++ b/lib/cmake/modules/ReflectionGenerator.cmake
@@ -101,9 +101,10 @@ function (add_reflection_generator_invocation)
 
     # determine file name or file path if none specified
     if (NOT ARGS_OUTPUT_DIRECTORY)
-        set(ARGS_OUTPUT_DIRECTORY "${CMAKE_CURRENT_BINARY_DIR}/reflection")
-        file(MAKE_DIRECTORY "${ARGS_OUTPUT_DIRECTORY}")
+        set(ARGS_OUTPUT_DIRECTORY "reflection")
     endif ()
+    get_filename_component(ARGS_OUTPUT_DIRECTORY "${ARGS_OUTPUT_DIRECTORY}" ABSOLUTE BASE_DIR "${CMAKE_CURRENT_BINARY_DIR}")
+    file(MAKE_DIRECTORY "${ARGS_OUTPUT_DIRECTORY}")
 
     # specify Clang's resource directory
     list(APPEND ARGS_CLANG_OPTIONS -resource-dir "${REFLECTION_GENERATOR_CLANG_RESOURCE_DIR}")
-- 
2.43.0


From ae902b4985ea2798277d5b81e2aa92780ac3ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:08 +0000
Subject: [PATCH 30/30] fix: make push() functions of JsonSerializable usable

They could not be instantiated because they lacked an allocator and passed
the base class instead of the actual object.
---
 lib/json/serializable.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/json/serializable.h b/lib/json/serializable.h
index 079ab00..7321fa1 100644
--- a/lib/json/serializable.h
+++ b/lib/json/serializable.h
@@ -20,8 +20,8 @@ namespace ReflectiveRapidJSON {
  */
 template <typename Type> struct JsonSerializable {
     // RapidJSON-level API
-    void push(RAPIDJSON_NAMESPACE::Value &container);
-    void push(RAPIDJSON_NAMESPACE::Value &container, const char *name);
+    void push(RAPIDJSON_NAMESPACE::Value &container, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const;
+    void push(RAPIDJSON_NAMESPACE::Value &container, const char *name, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const;
 
     // high-level API
     RAPIDJSON_NAMESPACE::StringBuffer toJson() const;
@@ -40,17 +40,22 @@ template <typename Type> struct JsonSerializable {
 /*!
  * \brief Pushes the object to the specified RapidJSON array.
  */
-template <typename Type> void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container)
+template <typename Type>
+void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const
 {
-    return JsonReflector::push<Type>(*this, container);
+    auto array = container.GetArray();
+    JsonReflector::push<Type>(static_cast<const Type &>(*this), array, allocator);
 }
 
 /*!
  * \brief Pushes the object to the specified RapidJSON object as a member with the specified \a name.
  */
-template <typename Type> void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container, const char *name)
+template <typename Type>
+void JsonSerializable<Type>::push(
+    RAPIDJSON_NAMESPACE::Value &container, const char *name, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const
 {
-    return JsonReflector::push<Type>(*this, name, container);
+    auto object = container.GetObject();
+    JsonReflector::push<Type>(static_cast<const Type &>(*this), name, object, allocator);
 }
 
 /*!
-- 
2.43.0

