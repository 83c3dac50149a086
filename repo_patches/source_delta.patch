From 930098789779bf7325bec7bd7dc5ec02cde2429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 01/96] fix: Reject malformed, negative and out of range
 numeric attribute values

---
 lib/src/parse/parse_common.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..a88d4a6 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -37,6 +37,17 @@ namespace
 
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+bool parseIsNumberEnd(const std::string& str, std::size_t pos)
+{
+    return str.find_first_not_of(" \t\n\r", pos) == std::string::npos;
+}
+
+bool parseIsNonNegative(const std::string& str)
+{
+    auto pos = str.find_first_not_of(" \t\n\r");
+    return (pos == std::string::npos) || (str[pos] != '-');
+}
+
 }
 
 const std::string& parseEmptyString()
@@ -939,11 +950,14 @@ unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
     unsigned result = 0U;
     try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
+        std::size_t pos = 0U;
+        auto value = std::stoull(str, &pos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsNumberEnd(str, pos) && parseIsNonNegative(str) && (value <= std::numeric_limits<unsigned>::max());
         }
 
+        result = static_cast<decltype(result)>(value);
+
     } catch (...) {
         if (ok != nullptr) {
             *ok = false;
@@ -956,9 +970,10 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
     try {
-        result = std::stoll(str, 0, base);
+        std::size_t pos = 0U;
+        result = std::stoll(str, &pos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsNumberEnd(str, pos);
         }
 
     } catch (...) {
@@ -973,9 +988,10 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
     try {
-        result = std::stoull(str, 0, base);
+        std::size_t pos = 0U;
+        result = std::stoull(str, &pos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsNumberEnd(str, pos) && parseIsNonNegative(str);
         }
 
     } catch (...) {
@@ -1012,8 +1028,9 @@ double parseStrToDouble(const std::string& str, bool* ok, bool allowSpecials)
 
     double result = 0.0;
     try {
-        result = std::stod(str, 0);
-        updateOk(true);
+        std::size_t pos = 0U;
+        result = std::stod(str, &pos);
+        updateOk(parseIsNumberEnd(str, pos));
 
     } catch (...) {
         updateOk(false);
-- 
2.43.0


From 7b7dc03267b4e6d0e2c30c3538c947d8c507aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 02/96] fix: Reject zero bitLength

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 2 +-
 lib/src/parse/ParseIntFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..7908d9a 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..13f4b1f 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
-- 
2.43.0


From a7f6ff8b3f7d587d7a14e7f90778038cd9039c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 03/96] fix: Reject empty length and too big bitLength of set
 field instead of asserting

---
 lib/src/parse/ParseSetFieldImpl.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..4e1572a 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -320,6 +320,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
     }
 
     auto& lengthStr = common::parseGetStringProp(parseProps(), common::parseLengthStr());
+    if (mustHaveLength && lengthStr.empty()) {
+        parseReportUnexpectedPropertyValue(common::parseLengthStr(), lengthStr);
+        return false;
+    }
+
     do {
         if (lengthStr.empty()) {
             if ((m_state.m_length == 0U) && (m_state.m_type != ParseType::NumOfValues)) {
@@ -355,6 +360,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
     }
 
     auto& bitLengthStr = common::parseGetStringProp(parseProps(), common::parseBitLengthStr());
+    if (mustHaveBitLength && bitLengthStr.empty()) {
+        parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
+        return false;
+    }
+
     do {
         if (bitLengthStr.empty()) {
             if (m_state.m_bitLength == 0U) {
@@ -380,7 +390,8 @@ bool ParseSetFieldImpl::parseUpdateLength()
             return false;
         }
 
-        if ((m_state.m_length != 0) && ((m_state.m_length * 8U) < m_state.m_bitLength)) {
+        auto maxBitLength = ((m_state.m_length != 0U) ? m_state.m_length : maxLength) * 8U;
+        if (maxBitLength < m_state.m_bitLength) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From 62f45f5a3063001ff50bff5225726488a35ad52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 04/96] fix: Report empty references instead of asserting

---
 lib/src/parse/ParseProtocolImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..ede4e26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -126,7 +126,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -141,7 +144,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -156,7 +162,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 2084328b905cae610c82a325ccc67e77665cc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 05/96] fix: Allow empty replace element

---
 lib/src/parse/ParseFieldImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..c439df7 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,10 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        return true;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
-- 
2.43.0


From 4584374272c723cb1fbfe4e375f6adc422a0782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 06/96] fix: Merge valid ranges of big unsigned types correctly

---
 lib/src/parse/ParseIntFieldImpl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 13f4b1f..aa22d47 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -932,6 +932,16 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
             return elem1.m_max < elem2.m_max;
         });
 
+    auto lessThan =
+        [bigUnsigned](std::intmax_t val1, std::intmax_t val2)
+        {
+            if (bigUnsigned) {
+                return static_cast<std::uintmax_t>(val1) < static_cast<std::uintmax_t>(val2);
+            }
+
+            return val1 < val2;
+        };
+
     // Merge
     for (auto iter = m_state.m_validRanges.begin(); iter != m_state.m_validRanges.end(); ++iter) {
         if (iter->m_deprecatedSince == 0U) {
@@ -945,13 +955,13 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                (lessThan(iter->m_max, nextIter->m_min) && ((nextIter->m_min - 1) != iter->m_max))) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            assert(!lessThan(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            iter->m_max = std::max(iter->m_max, nextIter->m_max, lessThan);
         }
     }
 
-- 
2.43.0


From 047f31f29367d7df2ed27b49511ded0cac4365b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 07/96] fix: Accept hexadecimal values in size comparison
 conditions and report malformed ones

---
 lib/src/parse/ParseOptCondImpl.cpp | 18 +++++++++---------
 lib/src/parse/ParseOptCondImpl.h   |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..f2e6f53 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, logger);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +523,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, logger);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -619,16 +619,16 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, ParseLogger& logger) const
 {
-    try {
-        [[maybe_unused]] auto val = std::stoll(m_right);
-        return true;
-    } catch (...) {
-        // Do nothing
+    bool ok = false;
+    common::parseStrToIntMax(m_right, &ok);
+    if (!ok) {
+        parseLogError(logger) << ParseXmlWrap::parseLogPrefix(node) <<
+            "The size reference \"" << m_left << "\" cannot be compared to value \"" << m_right << "\".";
     }
 
-    return false;
+    return ok;
 }
 
 ParseOptCondListImpl::ParseOptCondListImpl(const ParseOptCondListImpl& other)
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..8f8a25e 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, ParseLogger& logger) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From 103d211ffc8068dbe70bd50a440f17f59693462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 08/96] fix: Allow reuse of message with order and/or platforms

---
 lib/src/parse/ParseMessageImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..3260d84 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -539,7 +539,6 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
         return true;
     }
 
@@ -615,7 +614,6 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
         return true;
     }
 
@@ -681,6 +679,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From 6273b554096028305e1c77f7d481d99fb598e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 09/96] fix: Avoid overflow when checking serialisation offset

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index aa22d47..3ac063e 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -696,7 +696,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if ((-diff < m_state.m_serOffset) && (m_state.m_serOffset < diff)) {
             break;
         }
 
-- 
2.43.0


From f138a85990a7f801e26ba7f38bf8e2e9d4805e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 10/96] fix: Allow reuse of removed field

---
 lib/src/parse/ParseFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index c439df7..c28ce14 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1069,7 +1069,7 @@ bool ParseFieldImpl::parseCheckReuse()
 
     assert(parseGetSinceVersion() == 0U);
     assert(parseGetDeprecated() == ParseProtocol::parseNotYetDeprecated());
-    assert(!parseIsDeprecatedRemoved());
+    parseSetDeprecatedRemoved(false);
 
     do {
         auto& codeProp = common::parseReuseCodeStr();
-- 
2.43.0


From e8f80f3b5e52a603b34e52730599b7ac3b1de8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/96] fix: Report unknown prefix field types instead of
 asserting

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..aab0f58 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..20df205 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -714,8 +714,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..f889637 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From df8ec61aa028f943c5905a13a5fe604dd1f7ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 12/96] fix: Report empty field elements and duplicate
 definitions of fields

---
 lib/src/parse/ParseLayerImpl.cpp         | 9 ++++++++-
 lib/src/parse/ParseListFieldImpl.cpp     | 2 +-
 lib/src/parse/ParseOptionalFieldImpl.cpp | 9 ++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..052ec56 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,12 +567,19 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-        if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
+        if (attrs.find(common::parseFieldStr()) != attrs.end()) {
             parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 20df205..6e07f6d 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -572,7 +572,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-        if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
+        if (attrs.find(common::parseElementStr()) != attrs.end()) {
             parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..5dae8cc 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -490,12 +490,19 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-        if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
+        if (attrs.find(common::parseFieldStr()) != attrs.end()) {
             parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
-- 
2.43.0


From 73815169c2cca99d33cc5c3973de6fc58d3a9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 13/96] fix: Keep endian of reused float field

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..e4af283 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -319,6 +319,10 @@ bool ParseFloatFieldImpl::parseUpdateEndian()
     }
 
     auto& endianStr = common::parseGetStringProp(parseProps(), common::parseEndianStr());
+    if ((endianStr.empty()) && (m_state.m_endian != ParseEndian_NumOfValues)) {
+        return true;
+    }
+
     m_state.m_endian = common::parseEndian(endianStr, parseProtocol().parseCurrSchema().parseEndian());
     if (m_state.m_endian == ParseEndian_NumOfValues) {
         parseReportUnexpectedPropertyValue(common::parseEndianStr(), endianStr);
-- 
2.43.0


From bce46d7cb6633e07868d3c999b0e0224b58fab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 14/96] fix: Allow duplicate valid values of float field

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index e4af283..d3dc582 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -510,7 +510,6 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From 4a429e938ee9418606d56fa38bcbb13d7e4ea4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 15/96] fix: Keep validity conditions and aliases of copied
 bundle and bitfield members

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..838ac73 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..e5dfc6c 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From daede44624f6e40e1a13f3b435ee82d35eeb8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 16/96] fix: Allow condition expressions as text of the element

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 7 +++++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 7 +++++++
 lib/src/parse/ParseMessageImpl.cpp       | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 838ac73..01d99d0 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -513,6 +513,13 @@ bool ParseBitfieldFieldImpl::parseUpdateMultiCondInternal(const std::string& pro
         return true;
     }
 
+    if ((condNodes.size() == 1U) &&
+        (parseProps().find(prop) != parseProps().end()) &&
+        (ParseXmlWrap::parseGetChildren(condNodes.front()).empty())) {
+        // The expression is specified as element's text, already processed
+        return true;
+    }
+
     if (!parseProtocol().parseIsValidCondSupportedInCompositeFields()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "The property \"" << prop << "\" is not supported for <bitfield> field in dslVersion=" <<
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index e5dfc6c..478d3c2 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -614,6 +614,13 @@ bool ParseBundleFieldImpl::parseUpdateMultiCondInternal(const std::string& prop,
         return true;
     }
 
+    if ((condNodes.size() == 1U) &&
+        (parseProps().find(prop) != parseProps().end()) &&
+        (ParseXmlWrap::parseGetChildren(condNodes.front()).empty())) {
+        // The expression is specified as element's text, already processed
+        return true;
+    }
+
     if (!parseProtocol().parseIsValidCondSupportedInCompositeFields()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "The property \"" << prop << "\" is not supported for <bundle> field in dslVersion=" <<
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 3260d84..2eb9b9e 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1501,6 +1501,13 @@ bool ParseMessageImpl::parseUpdateMultiCondInternal(const std::string& prop, Par
         return true;
     }
 
+    if ((condNodes.size() == 1U) &&
+        (parseProps().find(prop) != parseProps().end()) &&
+        (ParseXmlWrap::parseGetChildren(condNodes.front()).empty())) {
+        // The expression is specified as element's text, already processed
+        return true;
+    }
+
     if (!m_protocol.parseIsPropertySupported(prop)) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(m_node) <<
             "The property \"" << prop << "\" is not supported for dslVersion=" <<
-- 
2.43.0


From 8333f0256b9f96787b5d417aab09e025d3e26038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 17/96] fix: Keep aliases with member path when copying fields

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 3 ++-
 lib/src/parse/ParseInterfaceImpl.cpp   | 3 ++-
 lib/src/parse/ParseMessageImpl.cpp     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 478d3c2..962b17a 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -455,7 +455,8 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
                 m_aliases.begin(), m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto fieldName = alias->parseFieldName();
+                    fieldName = fieldName.substr(0, fieldName.find('.'));
                     auto iter =
                         std::find_if(
                             m_members.begin(), m_members.end(),
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..19fed64 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -576,7 +576,8 @@ bool ParseInterfaceImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto fieldName = alias->parseFieldName();
+                    fieldName = fieldName.substr(0, fieldName.find('.'));
                     assert(!fieldName.empty());
                     auto fieldIter =
                         std::find_if(
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 2eb9b9e..861b9dc 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -963,7 +963,8 @@ bool ParseMessageImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto fieldName = alias->parseFieldName();
+                    fieldName = fieldName.substr(0, fieldName.find('.'));
                     assert(!fieldName.empty());
                     auto fieldIter =
                         std::find_if(
-- 
2.43.0


From 376cb6d45fd51b296c7cdd7ba7d4e06961c55719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 18/96] fix: Reject frames with duplicate layer names

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From bb1ab26341be7844af881dbb3ad2096859d32381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 19/96] fix: Calculate max length of list with non-int count
 prefix

---
 lib/src/parse/ParseListFieldImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 6e07f6d..d2ceab3 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -188,7 +188,10 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
 
     if (parseHasCountPrefixField()) {
         auto* prefixField = parseGetCountPrefixField();
-        assert(prefixField->parseKind() == ParseField::ParseKind::Int);
+        if (prefixField->parseKind() != ParseField::ParseKind::Int) {
+            return std::numeric_limits<std::size_t>::max();
+        }
+
         auto& castedPrefix = static_cast<const ParseIntFieldImpl&>(*prefixField);
         std::size_t count = static_cast<std::size_t>(castedPrefix.parseMaxValue());
         auto result = common::parseMulLength(elemMaxLength, count);
-- 
2.43.0


From 252f8d054837ba7fc5686525d18f51cdeedfaee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 20/96] fix: Reject zero terminated string with detached length
 prefix

---
 lib/src/parse/ParseStringFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index f889637..8aa62dc 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -410,7 +410,7 @@ bool ParseStringFieldImpl::parseUpdateZeroTerm()
         return false;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot apply zero suffix to strings having length prefix.";
         return false;
-- 
2.43.0


From ab608e39d8ad0f356e8ce710560b7446268b1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 21/96] fix: Process references to members of external field in
 optional

---
 lib/src/parse/ParseOptionalFieldImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index 5dae8cc..83ed94a 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -249,11 +249,12 @@ ParseOptionalFieldImpl::ParseFieldRefInfo ParseOptionalFieldImpl::parseProcessIn
         restStr = refStr.substr(sepPos + 1);
     }
 
-    if (fieldName != m_field->parseName()) {
+    auto* field = parseGetField();
+    if (fieldName != field->parseName()) {
         return ParseFieldRefInfo();
     }
 
-    return m_field->parseProcessInnerRef(restStr);
+    return field->parseProcessInnerRef(restStr);
 }
 
 bool ParseOptionalFieldImpl::parseIsValidRefTypeImpl(ParseFieldRefType type) const
-- 
2.43.0


From 51bec9214f962d11b3cb1cd5b76390cf5af6923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 22/96] fix: Avoid null pointer dereference in sync layer of
 old DSL versions

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..fb63c6b 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -200,7 +200,6 @@ bool ParseSyncLayerImpl::parseUpdateVerifyBeforeReadInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
         return true;
     }
 
@@ -235,7 +234,7 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
-- 
2.43.0


From d1f7b388448791052b61a5828605383851c10146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 23/96] fix: Update length of reused ref field when referenced
 field changes

---
 lib/src/parse/ParseRefFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 959c50e..3a42e78 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -236,7 +236,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
     assert(0 < parseMaxLength());
     auto maxBitLength = parseMaxLength() * BitsInByte;
     if (valStr.empty()) {
-        if (m_state.m_bitLength == 0) {
+        if ((m_state.m_bitLength == 0) || (parseProps().find(common::parseFieldStr()) != parseProps().end())) {
             m_state.m_bitLength = maxBitLength;
             return true;
         }
-- 
2.43.0


From 1bbacae45e7646ba8be64d9e077c739e62c40334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 24/96] fix: Report invalid platform names as errors

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index ede4e26..f95ed26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -721,8 +721,8 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From 75a9d12b953419a09538c4968309d56969fc40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 25/96] fix: Allow count property of reused list with detached
 element length prefix

---
 lib/src/parse/ParseListFieldImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index d2ceab3..cf358b0 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -295,7 +295,6 @@ bool ParseListFieldImpl::parseUpdateCount()
     if ((parseHasCountPrefixField()) || (parseHasLengthPrefixField()) || (parseHasTermSuffixField()) ||
         (!m_state.m_detachedCountPrefixField.empty()) ||
         (!m_state.m_detachedLengthPrefixField.empty()) ||
-        (!m_state.m_detachedElemLengthPrefixField.empty()) ||
         (!m_state.m_detachedTermSuffixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot use " << common::parseCountStr() << " property after reusing list with " <<
-- 
2.43.0


From 5aaf7ad65e20bea600941dfe3957e9f405af65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 26/96] fix: Allow reference to escape field as text of the
 element

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index fb63c6b..7f320a6 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -278,6 +278,12 @@ bool ParseSyncLayerImpl::parseCheckEscFieldAsChildInternal()
         return false;
     }
 
+    if ((m_extEscField != nullptr) &&
+        (ParseXmlWrap::parseGetChildren(children.front()).empty())) {
+        // The field reference is specified as element's text, already processed
+        return true;
+    }
+
     if (m_extEscField != nullptr) {
         parseLogError() << "There must be only one occurance of \"" << prop << "\" definition.";
         return false;
-- 
2.43.0


From 56389342a55694c71e55faae344a4c28a92209df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 27/96] fix: Generate correct valid ranges for int64 and
 versioned int fields

---
 app/commsdsl2comms/src/CommsEnumField.cpp |  2 +-
 app/commsdsl2comms/src/CommsIntField.cpp  | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..b6fafef 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1259,7 +1259,7 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        ((type == commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 975805f..974a966 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -919,16 +919,26 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseIntField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        ((type == commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
         obj.parseValidCheckVersion();
 
     if (!validCheckVersion) {
+        // Ranges of other versions must not be unified with the existing ones
+        validRanges.erase(
+            std::remove_if(
+                validRanges.begin(), validRanges.end(),
+                [this](auto& r)
+                {
+                    return !genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true);
+                }),
+            validRanges.end());
+
         // unify
         std::size_t idx = 0U;
-        while (idx < (validRanges.size() - 1U)) {
+        while ((idx + 1U) < validRanges.size()) {
             auto& thisRange = validRanges[idx];
             auto& nextRange = validRanges[idx + 1];
 
@@ -938,12 +948,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
                     static_cast<void>(min1);
                     static_cast<void>(max2);
                     assert(min1 <= min2);
-                    if (min2 <= (max1 + 1)) {
-                        assert(max1 <= max2);
-                        return true;
-                    }
-
-                    return false;
+                    return (min2 <= max1) || ((min2 - 1) == max1);
                 };
 
             bool merge = false;
-- 
2.43.0


From 28c4557e191de561e6357629692655cf5b197288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 28/96] fix: Do not assert on empty replacement in the last
 template line and on misplaced checksum layer

---
 lib/src/gen/GenLayer.cpp | 7 +++++++
 lib/src/gen/util.cpp     | 2 --
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenLayer.cpp b/lib/src/gen/GenLayer.cpp
index 12449ea..2b2e448 100644
--- a/lib/src/gen/GenLayer.cpp
+++ b/lib/src/gen/GenLayer.cpp
@@ -367,6 +367,13 @@ bool GenLayer::genAdjustSuffixLayersOrder(GenLayersAccessList& layers, bool& suc
                 return lPtr->genParseObj().parseKind() == commsdsl::parse::ParseLayer::ParseKind::Payload;
             });
 
+    if (std::distance(origLayers.begin(), thisOrigIter) < std::distance(origLayers.begin(), origPayloadIter)) {
+        genGenerator().genLogger().genError(
+            "Frame layer \"" + genParseObj().parseName() + "\" is expected to follow <payload>.");
+        success = false;
+        return false;
+    }
+
     auto thisIter =
         std::find_if(
             layers.begin(), layers.end(),
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..a719daf 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -543,8 +543,6 @@ std::string genProcessTemplate(const std::string& templ, const GenReplacementMap
 
             auto nextNewLinePos = templ.find_first_of('\n', suffixPos + Suffix.size());
             if (nextNewLinePos == std::string::npos) {
-                [[maybe_unused]] static constexpr bool Incorrect_template = false;
-                assert(Incorrect_template);
                 break;
             }
 
-- 
2.43.0


From 44048024d1bae78c36beb31198b9400c9a808871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 29/96] fix: Support generation of documentation for schema
 without frames

---
 app/commsdsl2comms/src/CommsDoxygen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c881dd9 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
-- 
2.43.0


From ac409c3f7990dbec39709c6f315567286b38f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 30/96] fix: Support generation of C documentation for schema
 without frames

---
 app/commsdsl2c/src/CDoxygen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..72dcfac 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -414,6 +414,10 @@ std::string CDoxygen::cInputDocInternal() const
         "///"
         ;
 
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     auto* firstFrame = m_frames.front();
     util::GenReplacementMap repl = {
         {"FRAME", firstFrame->cName()},
-- 
2.43.0


From 3bd7b0705cdde7ba9d3d681e76b42ca63960e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 31/96] fix: Report error when frame required by the generated
 code is not defined

---
 app/commsdsl2test/src/TestCmake.cpp            | 6 +++++-
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..dda216a 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("The schema doesn't define any frame to test.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..e6ece10 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("The schema doesn't define any frame required by the protocol plugin.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 5f6b90ffb555f87cabcf9dd284999c78b8e16eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 32/96] fix: Do not assert on frames and messages without
 suitable interface or input in bindings

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 3 +++
 app/commsdsl2swig/src/SwigFrame.cpp             | 2 ++
 app/commsdsl2swig/src/SwigMessage.cpp           | 6 ++++++
 3 files changed, 11 insertions(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..a4ff0de 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -104,10 +104,13 @@ bool EmscriptenFrame::genPrepareImpl()
     do {
         if (iFace == nullptr) {
             genGenerator().genLogger().genDebug("No valid interface for frame " + genName());
+            m_validFrame = false;
             break;
         }
 
+        auto* interfaceNs = EmscriptenNamespace::emscriptenCast(iFace->genParentNamespace());
         m_validFrame =
+            ((emscriptenFindInputNamespace() != nullptr) || (interfaceNs->emscriptenHasInput())) &&
             std::all_of(
                 m_emscriptenLayers.begin(), m_emscriptenLayers.end(),
                 [iFace](auto* l)
diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..72fa084 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -102,6 +102,8 @@ bool SwigFrame::genPrepareImpl()
     }
 
     m_validFrame =
+        (swigInterface() != nullptr) &&
+        (swigInput() != nullptr) &&
         std::all_of(
             m_swigLayers.begin(), m_swigLayers.end(),
             [](auto* l)
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 6e80416..180e8a0 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -157,6 +157,12 @@ bool SwigMessage::genPrepareImpl()
         return false;
     }
 
+    if (genIsReferenced() && (swigGetInterfaceInternal() == nullptr)) {
+        genGenerator().genLogger().genError(
+            "No suitable interface is available for message \"" + genParseObj().parseName() + "\".");
+        return false;
+    }
+
     m_swigFields = SwigField::swigTransformFieldsList(genFields());
     return true;
 }
-- 
2.43.0


From a021cea77cae56e34f86a8ad683dae1fdc28e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 33/96] fix: Do not assert when reference field with forced
 generation fails to be prepared

---
 lib/src/gen/GenRefField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenRefField.cpp b/lib/src/gen/GenRefField.cpp
index 37eea25..f3ec4de 100644
--- a/lib/src/gen/GenRefField.cpp
+++ b/lib/src/gen/GenRefField.cpp
@@ -78,7 +78,11 @@ public:
 
     void genSetReferenced()
     {
-        assert(m_referencedField != nullptr);
+        if (m_referencedField == nullptr) {
+            // Failed to prepare
+            return;
+        }
+
         m_referencedField->genSetReferenced();
     }
 
-- 
2.43.0


From 780207bb1209089b17830d2cf53c534fc9d697ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 34/96] fix: Report failure instead of assertion on unhandled
 exception

---
 app/commsdsl2c/src/main.cpp          | 2 --
 app/commsdsl2comms/src/main.cpp      | 2 --
 app/commsdsl2emscripten/src/main.cpp | 2 --
 app/commsdsl2latex/src/main.cpp      | 2 --
 app/commsdsl2swig/src/main.cpp       | 2 --
 app/commsdsl2test/src/main.cpp       | 2 --
 app/commsdsl2tools_qt/src/main.cpp   | 2 --
 7 files changed, 14 deletions(-)

diff --git a/app/commsdsl2c/src/main.cpp b/app/commsdsl2c/src/main.cpp
index 963694e..8a69a3b 100644
--- a/app/commsdsl2c/src/main.cpp
+++ b/app/commsdsl2c/src/main.cpp
@@ -17,7 +17,6 @@
 #include "CGenerator.h"
 #include "CProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2comms/src/main.cpp b/app/commsdsl2comms/src/main.cpp
index 3841f85..914b827 100644
--- a/app/commsdsl2comms/src/main.cpp
+++ b/app/commsdsl2comms/src/main.cpp
@@ -19,7 +19,6 @@
 
 #include <stdexcept>
 #include <iostream>
-#include <cassert>
 
 int main(int argc, const char* argv[])
 {
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2emscripten/src/main.cpp b/app/commsdsl2emscripten/src/main.cpp
index 9a2f748..1853a6e 100644
--- a/app/commsdsl2emscripten/src/main.cpp
+++ b/app/commsdsl2emscripten/src/main.cpp
@@ -17,7 +17,6 @@
 #include "EmscriptenGenerator.h"
 #include "EmscriptenProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2latex/src/main.cpp b/app/commsdsl2latex/src/main.cpp
index 09ed000..530455a 100644
--- a/app/commsdsl2latex/src/main.cpp
+++ b/app/commsdsl2latex/src/main.cpp
@@ -17,7 +17,6 @@
 #include "LatexGenerator.h"
 #include "LatexProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2swig/src/main.cpp b/app/commsdsl2swig/src/main.cpp
index a2fa978..6f25a53 100644
--- a/app/commsdsl2swig/src/main.cpp
+++ b/app/commsdsl2swig/src/main.cpp
@@ -17,7 +17,6 @@
 #include "SwigGenerator.h"
 #include "SwigProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2test/src/main.cpp b/app/commsdsl2test/src/main.cpp
index 1d0647c..05718b1 100644
--- a/app/commsdsl2test/src/main.cpp
+++ b/app/commsdsl2test/src/main.cpp
@@ -17,7 +17,6 @@
 #include "TestGenerator.h"
 #include "TestProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2tools_qt/src/main.cpp b/app/commsdsl2tools_qt/src/main.cpp
index 2f35824..47d30d4 100644
--- a/app/commsdsl2tools_qt/src/main.cpp
+++ b/app/commsdsl2tools_qt/src/main.cpp
@@ -17,7 +17,6 @@
 #include "ToolsQtGenerator.h"
 #include "ToolsQtProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
-- 
2.43.0


From 476e3b6eb38293bcf287d0f60ef9270ccac9d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 35/96] fix: Report unknown element names requested by user as
 errors

---
 lib/src/gen/GenGenerator.cpp |  4 ++--
 lib/src/gen/GenSchema.cpp    | 28 +++++++---------------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..0709aa2 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -875,7 +875,7 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -898,7 +898,7 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..e9a94db 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -122,9 +122,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -135,9 +133,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindField(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference \"" + externalRef + "\" in schema " + m_parseObj.parseName());
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference \"" + externalRef + "\" in schema " + m_parseObj.parseName());
         }
         return result;
     }
@@ -165,9 +161,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -178,9 +172,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genGindMessage(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -208,9 +200,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -221,9 +211,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindFrame(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -255,9 +243,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindInterface(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
-- 
2.43.0


From 16d31445326740e6bdd300f063f599e84dc50730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 36/96] fix: Do not inject code from current directory when
 code directory is not provided

---
 lib/src/gen/GenGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 0709aa2..c0ce5a3 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1424,7 +1424,11 @@ std::string GenGenerator::genReadCodeInjectCode(
             }
         };
 
-    auto code = util::genReadFileContents(path);
+    std::string code;
+    if (!genGetCodeDir().empty()) {
+        code = util::genReadFileContents(path);
+    }
+
     if (!code.empty()) {
         updateRealCodeInjected(true);
         return code;
-- 
2.43.0


From 288f9c3def4e94938db41bafef6dd1f6664000cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 37/96] fix: Do not assert on empty command line argument

---
 lib/src/gen/GenProgramOptions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 4bd4376..6ef65c6 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -100,11 +100,6 @@ public:
             const char* nextToken = argv[idx];
             assert(nextToken != nullptr);
             std::string nextStr(nextToken);
-            if (nextStr.empty()) {
-                assert(false); // Should not happen
-                continue;
-            }
-
             if (opt != nullptr) {
                 assert(opt->m_hasParam);
                 opt->m_value = std::move(nextStr);
@@ -112,6 +107,11 @@ public:
                 continue;
             }
 
+            if (nextStr.empty()) {
+                genReportUnknownOption(nextStr);
+                continue;
+            }
+
             if (nextStr[0] != '-') {
                 m_args.push_back(nextStr);
                 continue;
-- 
2.43.0


From 5a94db467ff8883669c2b81ae83873d422fe8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 38/96] fix: Report missing value of the last command line
 option

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  1 +
 lib/src/gen/GenGenerator.cpp                 |  5 +++++
 lib/src/gen/GenProgramOptions.cpp            | 15 +++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 4e9e00f..18b018c 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -49,6 +49,7 @@ public:
     void genParse(int argc, const char** argv);
     bool genIsOptUsed(const std::string& optStr) const;
     const std::string& genValue(const std::string& optStr) const;
+    const std::string& genParseError() const;
     const GenStringsList& genArgs() const;
     const std::string& genApp() const;
     std::string genHelpStr() const;
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index c0ce5a3..ce6eb48 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1366,6 +1366,11 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
     }
 
     auto& logger = genLogger();
+    if (!options.genParseError().empty()) {
+        logger.genError(options.genParseError());
+        return OptsProcessResult_Failure;
+    }
+
     if (options.genQuietRequested() && options.genDebugRequested()) {
         logger.genError("Cannot use both --quiet and --debug options at the same time");
         return OptsProcessResult_Failure;
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 6ef65c6..b1375d2 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -147,6 +147,15 @@ public:
             auto shortOpt = nextStr.substr(1);
             processOptFunc(shortOpt, m_shortOpts);
         }
+
+        if (opt != nullptr) {
+            m_parseError = "Missing value of option \"" + std::string(argv[argc - 1]) + "\"";
+        }
+    }
+
+    const std::string& genParseError() const
+    {
+        return m_parseError;
     }
 
     bool genIsOptUsed(const std::string& optStr) const
@@ -334,6 +343,7 @@ private:
     OptInfosMap m_longOpts;
     GenStringsList m_args;
     std::string m_app;
+    std::string m_parseError;
 };
 
 GenProgramOptions::GenProgramOptions() :
@@ -436,6 +446,11 @@ const std::string& GenProgramOptions::genValue(const std::string& optStr) const
     return m_impl->genValue(optStr);
 }
 
+const std::string& GenProgramOptions::genParseError() const
+{
+    return m_impl->genParseError();
+}
+
 const GenProgramOptions::GenStringsList& GenProgramOptions::genArgs() const
 {
     return m_impl->genArgs();
-- 
2.43.0


From 762fc25bc0b424885a87df3e9437d2aa59f96b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 39/96] fix: Report invalid numeric values of command line
 options

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  1 +
 lib/include/commsdsl/gen/util.h              |  2 +-
 lib/src/gen/GenGenerator.cpp                 |  6 ++++++
 lib/src/gen/GenProgramOptions.cpp            | 16 ++++++++++++++
 lib/src/gen/util.cpp                         | 22 +++++++++++++++++---
 5 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 18b018c..d3911e8 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -50,6 +50,7 @@ public:
     bool genIsOptUsed(const std::string& optStr) const;
     const std::string& genValue(const std::string& optStr) const;
     const std::string& genParseError() const;
+    std::string genInvalidNumericOption() const;
     const GenStringsList& genArgs() const;
     const std::string& genApp() const;
     std::string genHelpStr() const;
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..7413641 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -36,7 +36,7 @@ std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
-unsigned genStrToUnsigned(const std::string& str);
+unsigned genStrToUnsigned(const std::string& str, bool* ok = nullptr);
 bool genStrStartsWith(const std::string& str, const std::string& prefix);
 bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index ce6eb48..b602e8d 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1388,6 +1388,12 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
         logger.genSetWarnAsError();
     }
 
+    auto invalidOpt = options.genInvalidNumericOption();
+    if (!invalidOpt.empty()) {
+        logger.genError("Invalid numeric value of option \"" + invalidOpt + "\"");
+        return OptsProcessResult_Failure;
+    }
+
     if (options.genHasNamespaceOverride()) {
         genSetNamespaceOverride(options.genGetNamespace());
     }
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index b1375d2..ba3bf50 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -353,6 +353,22 @@ GenProgramOptions::GenProgramOptions() :
 
 GenProgramOptions::~GenProgramOptions() = default;
 
+std::string GenProgramOptions::genInvalidNumericOption() const
+{
+    for (auto& optStr : {GenMinRemoteVerStr, GenForceVerStr}) {
+        bool ok = true;
+        if (genIsOptUsed(optStr)) {
+            util::genStrToUnsigned(genValue(optStr), &ok);
+        }
+
+        if (!ok) {
+            return optStr;
+        }
+    }
+
+    return std::string();
+}
+
 GenProgramOptions& GenProgramOptions::genAddCommonOptions()
 {
     return
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index a719daf..7656760 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -272,14 +272,30 @@ std::string genStrInsertIndent(const std::string& str)
     return strings::genIndentStr() + genStrReplace(str, "\n", "\n" + strings::genIndentStr());
 }
 
-unsigned genStrToUnsigned(const std::string& str)
+unsigned genStrToUnsigned(const std::string& str, bool* ok)
 {
+    unsigned result = 0U;
+    bool valid = false;
     try {
-        return static_cast<unsigned>(std::stoul(str));
+        std::size_t pos = 0U;
+        auto value = std::stoull(str, &pos);
+        valid =
+            (pos == str.size()) &&
+            (str.find('-') == std::string::npos) &&
+            (value <= std::numeric_limits<unsigned>::max());
+
+        if (valid) {
+            result = static_cast<unsigned>(value);
+        }
     }
     catch (...) {
-        return 0U;
+        valid = false;
+    }
+
+    if (ok != nullptr) {
+        *ok = valid;
     }
+    return result;
 }
 
 bool genStrStartsWith(const std::string& str, const std::string& prefix)
-- 
2.43.0


From d48904b453062b4312d848e9ea9710ab802bef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 40/96] fix: Report unavailable file with the list of input
 files

---
 lib/include/commsdsl/gen/GenProgramOptions.h | 1 +
 lib/src/gen/GenGenerator.cpp                 | 6 ++++++
 lib/src/gen/GenProgramOptions.cpp            | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index d3911e8..e6c19e1 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -61,6 +61,7 @@ public:
     bool genDebugRequested() const;
     bool genWarnAsErrRequested() const;
     const std::string& genGetOutputDirectory() const;
+    const std::string& genGetInputFilesListFile() const;
     GenStringsList genGetInputFiles() const;
     const std::string& genGetCodeInputDirectory() const;
     bool genMultipleSchemasEnabled() const;
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index b602e8d..57f55b4 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -704,6 +704,12 @@ int GenGenerator::genExec(const GenProgramOptions& options)
         return -1;
     }
 
+    auto& listFile = options.genGetInputFilesListFile();
+    if ((!listFile.empty()) && (!std::ifstream(listFile))) {
+        genLogger().genError("Failed to open input files list: \"" + listFile + "\".");
+        return -1;
+    }
+
     auto files = options.genGetInputFiles();
     if (files.empty()) {
         genLogger().genError("No input files are provided");
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index ba3bf50..cadff13 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -512,6 +512,11 @@ const std::string& GenProgramOptions::genGetOutputDirectory() const
     return genValue(GenOutputDirStr);
 }
 
+const std::string& GenProgramOptions::genGetInputFilesListFile() const
+{
+    return genValue(GenInputFilesListStr);
+}
+
 GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
 {
     std::vector<std::string> result;
-- 
2.43.0


From 58d9a2666d0c534884433bb86b4ba7a54200e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 41/96] fix: Avoid access to unknown field or message requested
 by user

---
 lib/src/gen/GenSchema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index e9a94db..200509f 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -546,7 +546,7 @@ GenSchema::GenFieldsAccessList GenSchema::genGetAllMessageIdFields() const
 const GenField* GenSchema::genFindField(const std::string& externalRef) const
 {
     auto* field = m_impl->genFindField(externalRef);
-    assert(field->genIsPrepared());
+    assert((field == nullptr) || (field->genIsPrepared()));
     return field;
 }
 
@@ -554,7 +554,7 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -577,7 +577,7 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
-- 
2.43.0


From a7afea2f2740e7d597db78ffcfe62c28cc8434f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 42/96] fix: Reject checksum calculated both from and until
 other layers

---
 lib/src/parse/ParseChecksumLayerImpl.cpp | 7 +++++++
 lib/src/parse/ParseCustomLayerImpl.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseChecksumLayerImpl.cpp b/lib/src/parse/ParseChecksumLayerImpl.cpp
index 3c936f6..9eaf17e 100644
--- a/lib/src/parse/ParseChecksumLayerImpl.cpp
+++ b/lib/src/parse/ParseChecksumLayerImpl.cpp
@@ -76,6 +76,13 @@ bool ParseChecksumLayerImpl::parseVerifyImpl(const ParseLayerImpl::ParseLayersLi
         return false;
     }
 
+    if ((!parseFrom().empty()) && (!parseUntil().empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Checksum layer cannot set both \"" << common::parseFromStr() << "\" and \"" <<
+            common::parseUntilStr() << "\" properties.";
+        return false;
+    }
+
     if (!parseFrom().empty()) {
         auto fromIdx = parseFindLayerIndex(layers, parseFrom());
         if (layers.size() <= fromIdx) {
diff --git a/lib/src/parse/ParseCustomLayerImpl.cpp b/lib/src/parse/ParseCustomLayerImpl.cpp
index 7c3319f..97c2720 100644
--- a/lib/src/parse/ParseCustomLayerImpl.cpp
+++ b/lib/src/parse/ParseCustomLayerImpl.cpp
@@ -213,6 +213,13 @@ bool ParseCustomLayerImpl::parseVerifyChecksumInternal(const ParseLayersList& la
         return false;
     }
 
+    if ((!m_checksumFromLayer.empty()) && (!m_checksumUntilLayer.empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Custom checksum layer cannot set both \"" << common::parseChecksumFromStr() << "\" and \"" <<
+            common::parseChecksumUntilStr() << "\" properties.";
+        return false;
+    }
+
     if (!m_checksumFromLayer.empty()) {
         auto fromIdx = parseFindLayerIndex(layers, m_checksumFromLayer);
         if (layers.size() <= fromIdx) {
-- 
2.43.0


From 272bbf78a560ed87c031c02ad27b1aaece8906fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 43/96] fix: Reject conditions dereferencing values which
 cannot be checked

---
 lib/src/parse/ParseFieldImpl.cpp   | 5 +++++
 lib/src/parse/ParseOptCondImpl.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index c28ce14..bb689da 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -450,6 +450,11 @@ ParseFieldImpl::ParseFieldRefInfo ParseFieldImpl::parseProcessInnerRef(const std
         return info;
     }
 
+    if (parseKind() == ParseKind::Variant) {
+        // Members of the variant cannot be dereferenced
+        return ParseFieldRefInfo();
+    }
+
     auto& memFields = parseMembers();
     if (!memFields.empty()) {
         return parseProcessSiblingRef(memFields, refStr);
diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index f2e6f53..1329731 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -357,6 +357,11 @@ bool ParseOptCondExprImpl::parseVerifySiblingSingleElementCheck(const ParseOptCo
 
     if (info.m_refType == ParseFieldImpl::FieldRefType_InnerValue) {
         assert(!info.m_valueName.empty());
+        if (info.m_field->parseKind() != ParseFieldImpl::ParseKind::Set) {
+            reportInvalidSiblingRef(m_right);
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From 4818409cbe0c45d462062c7592cb805551583b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 44/96] fix: Do not ignore forced schema version with the most
 significant bit set

---
 lib/src/gen/GenGenerator.cpp | 2 +-
 lib/src/gen/GenSchema.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 57f55b4..f946b3d 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -673,7 +673,7 @@ private:
     const GenInterface* m_forcedInterface = nullptr;
     std::map<std::string, std::string> m_namespaceOverrides;
     std::string m_topNamespace;
-    int m_forcedSchemaVersion = -1;
+    std::intmax_t m_forcedSchemaVersion = -1;
     unsigned m_minRemoteVersion = 0U;
     std::string m_codeVersion;
     std::string m_outputDir;
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 200509f..eacfbe1 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -496,7 +496,7 @@ private:
     ParseSchema m_parseObj;
     GenElem* m_parent = nullptr;
     GenNamespacesList m_namespaces;
-    int m_forcedSchemaVersion = -1;
+    std::intmax_t m_forcedSchemaVersion = -1;
     GenFieldsAccessList m_messageIdFields;
     std::string m_mainNamespace;
     std::string m_origNamespace;
-- 
2.43.0


From 02a3d8c6573ae8776a3079626074940cf538e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 45/96] fix: Allow list element length equal to the adjusted
 detached element length prefix

The refresh functionality assigned the length of the first element to the
prefix and then asserted the same length being less than the assigned value.
---
 app/commsdsl2comms/src/CommsListField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index b3b99fc..e8ea782 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -431,7 +431,7 @@ std::string CommsListField::commsDefBundledRefreshFuncBodyImpl(const CommsFields
         static const std::string AdjustListTempl =
             "COMMS_ASSERT(\n"
             "    (#^#LIST_FIELD#$#.value().empty()) ||\n"
-            "    (#^#LIST_FIELD#$#.value()[0].length() < maxAllowedValue));";
+            "    (#^#LIST_FIELD#$#.value()[0].length() <= maxAllowedValue));";
         repl["PREFIX_VALUE"] = "maxAllowedValue";
         repl["ADJUST_LIST"] = util::genProcessTemplate(AdjustListTempl, repl);
         processPrefixFunc(elemLengthPrefix, repl);
-- 
2.43.0


From 60f2e8e2e30bff54ed449afd88f32bcc8409b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 46/96] fix: Do not count pseudo fields in the expected
 serialisation length

Pseudo fields are not serialised, counting them made the generated length
static assertions of the message fail.
---
 app/commsdsl2comms/src/CommsField.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..9ce6afc 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -219,6 +219,10 @@ std::size_t CommsField::commsMinLength() const
         return 0U;
     }
 
+    if (m_forcedPseudo || m_genField.genParseObj().parseIsPseudo()) {
+        return 0U;
+    }
+
     return commsMinLengthImpl();
 }
 
@@ -228,6 +232,10 @@ std::size_t CommsField::commsMaxLength() const
         return comms::genMaxPossibleLength();
     }
 
+    if (m_forcedPseudo || m_genField.genParseObj().parseIsPseudo()) {
+        return 0U;
+    }
+
     return commsMaxLengthImpl();
 }
 
-- 
2.43.0


From 20c51b91b51a46e3b252d06ea5b9588014202a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 47/96] fix: Calculate expected length of the fixed count list
 using generated lengths of its element

The parsed length of the element differs from the length of the generated
one (strings, optional members, limited available length), which made the
generated length static assertions of the message fail.
---
 app/commsdsl2comms/src/CommsListField.cpp | 45 ++++++++++++++++++++++-
 app/commsdsl2comms/src/CommsListField.h   |  3 ++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index e8ea782..1f2d779 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -535,11 +535,21 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
         };
 }
 
+std::size_t CommsListField::commsMinLengthImpl() const
+{
+    auto obj = genListFieldParseObj();
+    if (obj.parseFixedCount() != 0U) {
+        return commsFixedCountLengthInternal(&CommsField::commsMinLength);
+    }
+
+    return CommsBase::commsMinLengthImpl();
+}
+
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
     auto obj = genListFieldParseObj();
     if (obj.parseFixedCount() != 0U) {
-        return CommsBase::commsMaxLengthImpl();
+        return commsFixedCountLengthInternal(&CommsField::commsMaxLength);
     }
 
     return comms::genMaxPossibleLength();
@@ -716,4 +726,37 @@ void CommsListField::commsAddLengthForcingOptInternal(GenStringsList& opts) cons
     }
 }
 
+std::size_t CommsListField::commsFixedCountLengthInternal(std::size_t (CommsField::*lengthFunc)() const) const
+{
+    auto lengthOf =
+        [lengthFunc](const CommsField* externalField, const CommsField* memberField) -> std::size_t
+        {
+            auto* field = (externalField != nullptr) ? externalField : memberField;
+            if (field == nullptr) {
+                return 0U;
+            }
+
+            return (field->*lengthFunc)();
+        };
+
+    auto mulLength =
+        [](std::size_t count, std::size_t len) -> std::size_t
+        {
+            if ((len != 0U) && ((comms::genMaxPossibleLength() / len) < count)) {
+                return comms::genMaxPossibleLength();
+            }
+
+            return count * len;
+        };
+
+    auto obj = genListFieldParseObj();
+    auto elemLength = lengthOf(m_commsExternalElementField, m_commsMemberElementField);
+    auto prefixLength = lengthOf(m_commsExternalElemLengthPrefixField, m_commsMemberElemLengthPrefixField);
+    if (!obj.parseElemFixedLength()) {
+        return mulLength(obj.parseFixedCount(), comms::genAddLength(prefixLength, elemLength));
+    }
+
+    return comms::genAddLength(prefixLength, mulLength(obj.parseFixedCount(), elemLength));
+}
+
 } // namespace commsdsl2comms
diff --git a/app/commsdsl2comms/src/CommsListField.h b/app/commsdsl2comms/src/CommsListField.h
index cc08a3e..dfaaa48 100644
--- a/app/commsdsl2comms/src/CommsListField.h
+++ b/app/commsdsl2comms/src/CommsListField.h
@@ -53,6 +53,7 @@ protected:
     virtual bool commsIsVersionDependentImpl() const override;
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
 
@@ -67,6 +68,8 @@ private:
     void commsAddTermSuffixOptInternal(GenStringsList& opts) const;
     void commsAddLengthForcingOptInternal(GenStringsList& opts) const;
 
+    std::size_t commsFixedCountLengthInternal(std::size_t (CommsField::*lengthFunc)() const) const;
+
     CommsField* m_commsExternalElementField = nullptr;
     CommsField* m_commsMemberElementField = nullptr;
     CommsField* m_commsExternalCountPrefixField = nullptr;
-- 
2.43.0


From 459c3436f2ba752c879a69feb282b91902fc5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 48/96] fix: Preserve precision of floating point values in the
 generated code

The values were printed with 6 digits after the point, which replaced small
values with 0 and truncated others.
---
 app/commsdsl2comms/src/CommsFloatField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index f61763b..b515ee7 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -25,6 +25,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -91,7 +94,9 @@ std::string commsValueToString(double val, commsdsl::parse::ParseFloatField::Par
         return "std::numeric_limits<ValueType>::max()";
     }
 
-    return "static_cast<ValueType>(" + std::to_string(val) + ")";
+    std::stringstream stream;
+    stream << std::scientific << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << val;
+    return "static_cast<ValueType>(" + stream.str() + ")";
 }
 
 std::string commsCmpToString(double val, commsdsl::parse::ParseFloatField::ParseType type)
-- 
2.43.0


From a97971cc77bce0e9c4ea39dbc51fea222ec63427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 49/96] fix: Do not use optimized variant read when the last
 member has unsuitable key

The value of the key was assigned to the first field of the last member
regardless of its kind, type, serialisation options, validity checks and
being fixed.
---
 app/commsdsl2comms/src/CommsIntField.cpp     | 30 ++++++++++++++++++++
 app/commsdsl2comms/src/CommsIntField.h       |  1 +
 app/commsdsl2comms/src/CommsVariantField.cpp | 28 +++++++++++++++++-
 3 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 974a966..03522b7 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -143,6 +143,36 @@ bool CommsIntField::commsVariantIsPropKeyEquivalent(const CommsIntField& other)
     return thisDslObj.parseEndian() == otherDslObj.parseEndian();
 }
 
+bool CommsIntField::commsVariantIsCatchAllKeyFor(const CommsIntField& other) const
+{
+    // The value read by the common key field is assigned without any extra checks
+    auto thisDslObj = genIntFieldParseObj();
+    if ((thisDslObj.parseIsFailOnInvalid()) ||
+        (thisDslObj.parseIsFixedValue()) ||
+        (thisDslObj.parseIsPseudo())) {
+        return false;
+    }
+
+    auto otherDslObj = other.genIntFieldParseObj();
+    auto thisType = comms::genCppIntTypeFor(thisDslObj.parseType(), thisDslObj.parseMaxLength());
+    auto otherType = comms::genCppIntTypeFor(otherDslObj.parseType(), otherDslObj.parseMaxLength());
+    if ((thisType != otherType) ||
+        (thisDslObj.parseEndian() != otherDslObj.parseEndian())) {
+        return false;
+    }
+
+    auto serOptsOf =
+        [](const CommsIntField& field)
+        {
+            util::GenStringsList opts;
+            field.commsAddLengthOptInternal(opts);
+            field.commsAddSerOffsetOptInternal(opts);
+            return opts;
+        };
+
+    return serOptsOf(*this) == serOptsOf(other);
+}
+
 bool CommsIntField::genPrepareImpl()
 {
     return GenBase::genPrepareImpl() && commsPrepare();
diff --git a/app/commsdsl2comms/src/CommsIntField.h b/app/commsdsl2comms/src/CommsIntField.h
index d21bb52..4ad8913 100644
--- a/app/commsdsl2comms/src/CommsIntField.h
+++ b/app/commsdsl2comms/src/CommsIntField.h
@@ -38,6 +38,7 @@ public:
     std::string commsVariantPropKeyValueStr() const;
     bool commsVariantIsValidPropKey() const;
     bool commsVariantIsPropKeyEquivalent(const CommsIntField& other) const;
+    bool commsVariantIsCatchAllKeyFor(const CommsIntField& other) const;
 
 protected:
     // GenBase overrides
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 879db2b..82244a9 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -80,7 +80,8 @@ const CommsField* commsBundleGetValidPropKeyInternal(const CommsBundleField& bun
     }
 
     auto& first = members.front();
-    if (first->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int) {
+    if ((first->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int) ||
+        (first->commsIsVersionOptional())) {
         return nullptr;
     }
 
@@ -97,6 +98,27 @@ const CommsField* commsBundleGetValidPropKeyInternal(const CommsBundleField& bun
     return first;
 }
 
+bool commsBundleIsCatchAllInternal(const CommsBundleField& bundle, const CommsField* propKey)
+{
+    if (propKey == nullptr) {
+        return false;
+    }
+
+    auto& members = bundle.commsMembers();
+    if (members.empty()) {
+        return false;
+    }
+
+    auto& first = members.front();
+    if ((first->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int) ||
+        (first->commsIsVersionOptional()) ||
+        (first->commsHasGeneratedReadCode())) {
+        return false;
+    }
+
+    return static_cast<const CommsIntField&>(*first).commsVariantIsCatchAllKeyFor(static_cast<const CommsIntField&>(*propKey));
+}
+
 std::string commsPropKeyTypeInternal(const CommsField& field)
 {
     assert(field.commsGenField().genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Int);
@@ -1095,6 +1117,10 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
 
         if (!validPropKey) {
             // last "catch all" element
+            if (!commsBundleIsCatchAllInternal(bundle, propKey)) {
+                return result;
+            }
+
             continue;
         }
 
-- 
2.43.0


From b971b905b02539c6d3aacfff559ac8cff3b4c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 50/96] fix: Do not use optimized variant read when reading of
 the member bundle is not default

The members of the bundle following the key were read without the generated
code preparing the read of the optional fields and sequences, reading of which
depends on the previous members.
---
 app/commsdsl2comms/src/CommsVariantField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 82244a9..52c3649 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -1109,6 +1109,11 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
         }
 
         auto& bundle = static_cast<const CommsBundleField&>(*memPtr);
+        if (bundle.commsHasGeneratedReadCode()) {
+            // Reading from the second member field skips the read functionality of the bundle
+            return result;
+        }
+
         auto* propKeyTmp = commsBundleGetValidPropKeyInternal(bundle);
         bool validPropKey = (propKeyTmp != nullptr);
         if ((!validPropKey) && (m != m_commsMembers.back())) {
-- 
2.43.0


From 2fa58e259fe2623f5071fbb3637f1793ca8e569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 51/96] fix: Do not use optimized variant read when the key
 limits the length of the bundle

---
 app/commsdsl2comms/src/CommsIntField.cpp     | 1 +
 app/commsdsl2comms/src/CommsVariantField.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 03522b7..7fc6c21 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -148,6 +148,7 @@ bool CommsIntField::commsVariantIsCatchAllKeyFor(const CommsIntField& other) con
     // The value read by the common key field is assigned without any extra checks
     auto thisDslObj = genIntFieldParseObj();
     if ((thisDslObj.parseIsFailOnInvalid()) ||
+        (thisDslObj.parseSemanticType() == commsdsl::parse::ParseField::ParseSemanticType::Length) ||
         (thisDslObj.parseIsFixedValue()) ||
         (thisDslObj.parseIsPseudo())) {
         return false;
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 52c3649..6921959 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -54,6 +54,11 @@ bool commsintIsValidPropKeyInternal(const CommsIntField& intField)
         return false;
     }
 
+    if (obj.parseSemanticType() == commsdsl::parse::ParseField::ParseSemanticType::Length) {
+        // Limits reading of the other members
+        return false;
+    }
+
     auto genIntFieldParseObj = commsdsl::parse::ParseIntField(obj);
     auto& validRanges = genIntFieldParseObj.parseValidRanges();
     if (validRanges.size() != 1U) {
-- 
2.43.0


From c77312c0c61f5cc488132f65c4d355ab1f952104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 52/96] fix: Do not bypass custom read of the bundle with the
 optimized variant read

The injected custom read code of the bundle or of its key wasn't executed.
---
 app/commsdsl2comms/src/CommsField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 9ce6afc..4edeef5 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -210,7 +210,10 @@ bool CommsField::commsHasMembersCode() const
 
 bool CommsField::commsHasGeneratedReadCode() const
 {
-    return !commsDefReadFuncBodyImpl().empty();
+    return
+        (m_customCode.m_hasRead) ||
+        (!m_customCode.m_read.empty()) ||
+        (!commsDefReadFuncBodyImpl().empty());
 }
 
 std::size_t CommsField::commsMinLength() const
-- 
2.43.0


From c45dfe513aaf4a4b9fdf5efc0bdc3ca2ca5d5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 53/96] fix: Escape names and values in the generated string
 literals

---
 app/commsdsl2comms/src/CommsEnumField.cpp   |  2 +-
 app/commsdsl2comms/src/CommsField.cpp       |  4 +--
 app/commsdsl2comms/src/CommsMessage.cpp     |  4 +--
 app/commsdsl2comms/src/CommsSetField.cpp    |  2 +-
 app/commsdsl2comms/src/CommsStringField.cpp |  8 +++---
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/util.cpp                        | 28 +++++++++++++++++++++
 7 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index b6fafef..adbe9dd 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -856,7 +856,7 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back(util::genStrToLiteral(getDisplayNameFunc(infoPair)));
             };
 
         auto valIter = values.find(v.second);
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 4edeef5..3419fde 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -759,13 +759,13 @@ std::string CommsField::commsCommonNameFuncCode() const
         "/// @brief Name of the @ref #^#SCOPE#$# field.\n"
         "static const char* name()\n"
         "{\n"
-        "    return \"#^#NAME#$#\";\n"
+        "    return #^#NAME#$#;\n"
         "}\n"
         "#^#CUSTOM#$#\n";
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(m_genField, generator)},
-        {"NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
+        {"NAME", util::genStrToLiteral(util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName()))},
         {"CUSTOM", m_customCode.m_name}
     };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..e3daf61 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -758,12 +758,12 @@ std::string CommsMessage::commsCommonNameFuncInternal() const
         "/// @brief Name of the @ref #^#SCOPE#$# message.\n"
         "static const char* name()\n"
         "{\n"
-        "    return \"#^#NAME#$#\";\n"
+        "    return #^#NAME#$#;\n"
         "}\n";
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"NAME", util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName())}
+        {"NAME", util::genStrToLiteral(util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName()))}
     };
 
     return util::genProcessTemplate(Templ, repl);
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..0bca4f2 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -451,7 +451,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back(util::genStrToLiteral(getDisplayNameFunc(infoPair)));
             };
 
         auto bitIter = bits.find(b.second);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..b48d252 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -166,12 +166,12 @@ std::string CommsStringField::commsDefConstructCodeImpl() const
     }
 
     static const std::string Templ =
-        "static const char Str[] = \"#^#STR#$#\";\n"
+        "static const char Str[] = #^#STR#$#;\n"
         "static const std::size_t StrSize = std::extent<decltype(Str)>::value;\n"
         "Base::setValue(typename Base::ValueType(&Str[0], StrSize - 1));\n";
 
     util::GenReplacementMap repl = {
-        {"STR", defaultValue}
+        {"STR", util::genStrToLiteral(defaultValue)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -307,7 +307,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        values.push_back("\"" + info.m_value + "\"");
+        values.push_back(util::genStrToLiteral(info.m_value));
     }
 
     static const std::string Templ =
@@ -440,7 +440,7 @@ std::string CommsStringField::commsCompPrepValueStrImpl(const std::string& accSt
         valueTmp.assign(value, 1, std::string::npos);
     } while (false);
 
-    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + valueTmp + '\"');
+    return CommsBase::commsCompPrepValueStrImpl(accStr, util::genStrToLiteral(valueTmp));
 }
 
 std::string CommsStringField::commsDefFieldOptsInternal() const
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index 7413641..62428a5 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -69,6 +69,7 @@ std::string genStrMakeMultiline(const std::string& value, unsigned len = 60, boo
 std::string genReadFileContents(const std::string& filePath);
 bool genIsFileReadable(const std::string& filePath);
 
+std::string genStrToLiteral(const std::string& value);
 const std::string& genDisplayName(const std::string& dslDisplayName, const std::string& dslName);
 
 } // namespace util
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 7656760..020cc71 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -730,6 +730,34 @@ bool genIsFileReadable(const std::string& filePath)
     return static_cast<bool>(stream);
 }
 
+std::string genStrToLiteral(const std::string& value)
+{
+    std::string result;
+    result.reserve(value.size() + 2U);
+    result.push_back('\"');
+    for (auto ch : value) {
+        if ((ch == '\\') || (ch == '\"')) {
+            result.push_back('\\');
+            result.push_back(ch);
+            continue;
+        }
+
+        auto code = static_cast<unsigned char>(ch);
+        if ((0x20 <= code) && (code != 0x7f)) {
+            result.push_back(ch);
+            continue;
+        }
+
+        // 3 digits octal code
+        result.push_back('\\');
+        result.push_back(static_cast<char>('0' + (code >> 6U)));
+        result.push_back(static_cast<char>('0' + ((code >> 3U) & 0x7)));
+        result.push_back(static_cast<char>('0' + (code & 0x7)));
+    }
+    result.push_back('\"');
+    return result;
+}
+
 const std::string& genDisplayName(const std::string& dslDisplayName, const std::string& dslName)
 {
     if (dslDisplayName.empty()) {
-- 
2.43.0


From 4eb1cabdc4246164528bef58eaac2e3062e3b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 54/96] fix: Use value type order when generated code searches
 valid enum values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index adbe9dd..b2b6dde 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -327,7 +327,9 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             prefix = "ValueType::";
         }
 
-        auto& revValues = obj.parseRevValues();
+        // The search is binary, the order must be the one of the value type.
+        auto& revValues = genSortedRevValues();
+        auto& values = obj.parseValues();
         auto prevIter = revValues.end();
         for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
 
@@ -335,7 +337,14 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
-            valuesStrings.push_back(prefix + iter->second);
+            assert(iter->second != nullptr);
+            auto valIter = values.find(*iter->second);
+            assert(valIter != values.end());
+            if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, true)) {
+                continue;
+            }
+
+            valuesStrings.push_back(prefix + *iter->second);
             prevIter = iter;
         }
 
-- 
2.43.0


From 5c71d28d3eaabbe9e00b5f4ddabd3eae117fd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 55/96] fix: Generate valid literal for minimal 64 bit value

---
 lib/src/gen/util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 020cc71..abe044b 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -398,6 +398,11 @@ std::string genNumToString(std::intmax_t value)
         return stream.str();
     }
 
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        // There is no signed literal for it.
+        return "(" + genNumToString(value + 1) + " - 1)";
+    }
+
     std::stringstream stream;
     stream << std::hex << "-0x" << -value << "LL";
     return stream.str();
-- 
2.43.0


From 59226b0b80b60e81d0fdf1ff100676b1db9dba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 56/96] fix: Do not override read error with message validity
 failure

---
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index e3daf61..6fbdbde 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1361,7 +1361,7 @@ std::string CommsMessage::commsDefReadFuncInternal() const
 
             if (genParseObj().parseIsFailOnInvalid()) {
                 static const std::string FailOnInvalidTempl =
-                    "if (!#^#VALID_PREFIX#$#doValid()) {\n"
+                    "if ((es == comms::ErrorStatus::Success) && (!#^#VALID_PREFIX#$#doValid())) {\n"
                     "    es = comms::ErrorStatus::InvalidMsgData;\n"
                     "}\n";
 
-- 
2.43.0


From d1bdd372920f631420616f3242a4b8f4c10e3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 57/96] fix: Escape enum display names in the sorted map of
 names

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index b2b6dde..d153176 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -984,8 +984,8 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
             {
                 auto str =
                     "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
-                    "\")";
+                    v.second + ", " + util::genStrToLiteral(getDisplayNameFunc(infoPair)) +
+                    ")";
                 names.push_back(std::move(str));
                 firstElem = false;
                 lastValue = v.first;
@@ -1069,8 +1069,8 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 auto str =
                     "std::make_pair(" +
                     getValueStrFunc(v.second) +
-                    ", \"" + getDisplayNameFunc(infoPair) +
-                    "\")";
+                    ", " + util::genStrToLiteral(getDisplayNameFunc(infoPair)) +
+                    ")";
                 names.push_back(std::move(str));
                 firstElem = false;
                 lastValue = v.first;
-- 
2.43.0


From 720fbbc8679f20dc216ed7df6456a32c85a3405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 58/96] fix: Do not use special values that do not exist in the
 generated version

---
 lib/src/gen/GenFloatField.cpp | 8 ++++++--
 lib/src/gen/GenIntField.cpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..d5219a1 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,15 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseFloatField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +132,7 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genFloatFieldParseObj());
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..f449490 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,15 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseIntField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +109,7 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genIntFieldParseObj());
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From a04738ae42155cacfe61680532d2a591897aaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 59/96] fix: Do not map names of enum values that do not exist
 in the generated version

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index d153176..5ab786a 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -943,27 +943,18 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
     auto& revValues = obj.parseRevValues();
     assert(!revValues.empty());
 
-    std::vector<std::uintmax_t> valuesSeq;
-    valuesSeq.reserve(revValues.size());
-    for (auto& v : revValues) {
-        valuesSeq.push_back(static_cast<std::uintmax_t>(v.first));
-    }
-    std::sort(valuesSeq.begin(), valuesSeq.end());
-
     auto& currSchema = genGenerator().genSchemaOf(*this);
     auto& values = obj.parseValues();
     bool firstElem = true;
     std::intmax_t lastValue = std::numeric_limits<std::intmax_t>::min();
     GenStringsList names;
-    for (auto& posV : valuesSeq) {
-        auto castedV = static_cast<std::intmax_t>(posV);
-        if ((!firstElem) && (lastValue == castedV)) {
+    for (auto& sortedV : genSortedRevValues()) {
+        if ((!firstElem) && (lastValue == sortedV.first)) {
             continue;
         }
 
-        auto revIter = revValues.find(castedV);
-        assert(revIter != revValues.end());
-        auto& v = *revIter;
+        assert(sortedV.second != nullptr);
+        auto v = std::make_pair(sortedV.first, *sortedV.second);
 
         auto getDisplayNameFunc =
             [](auto& infoPair) -> const std::string&
@@ -993,6 +984,10 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 
         auto valIter = values.find(v.second);
         assert(valIter != values.end());
+        if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
+            continue; // The value is not defined
+        }
+
         if ((!obj.parseIsNonUniqueAllowed()) ||
             (currSchema.genSchemaVersion() < valIter->second.m_deprecatedSince) ||
             (obj.parseIsUnique())) {
@@ -1078,6 +1073,10 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 
         auto valIter = values.find(v.second);
         assert(valIter != values.end());
+        if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
+            continue; // The value is not defined
+        }
+
         if ((!obj.parseIsNonUniqueAllowed()) ||
             (currSchema.genSchemaVersion() < valIter->second.m_deprecatedSince) ||
             (obj.parseIsUnique())) {
-- 
2.43.0


From 884fe6675de710024cae2307ed81729284efedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 60/96] fix: Order variants without selected member before
 other variants

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 6921959..9c90fad 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -784,7 +784,7 @@ std::string CommsVariantField::commsDefCopyCodeInternal() const
         "bool operator<(const #^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#& other) const\n"
         "{\n"
         "    if (!Base::currentFieldValid()) {\n"
-        "        return (!other.currentFieldValid());\n"
+        "        return other.currentFieldValid();\n"
         "    }\n\n"
         "    if (!other.currentFieldValid()) {\n"
         "        return false;\n"
-- 
2.43.0


From ff36f7b05a7ac07ff0f0012128f6fcf937099983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 61/96] fix: Recognise deprecated valid ranges of integer
 fields as version dependent

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 7fc6c21..c39993c 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -1032,7 +1032,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
             continue;
         }
 
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From 3682674d069d690b1da16e59903fe2d655c3411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 62/96] fix: Do not check valid ranges of floats that do not
 exist in the generated version

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 33 ++++++++++++++++------
 app/commsdsl2comms/src/CommsFloatField.h   |  1 +
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index b515ee7..a63fdd5 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -368,7 +368,7 @@ std::string CommsFloatField::commsDefValidFuncBodyImpl() const
 {
     auto obj = genFloatFieldParseObj();
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return strings::genEmptyString();
     }
@@ -424,7 +424,7 @@ bool CommsFloatField::commsIsVersionDependentImpl() const
         return false;
     }
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return false;
     }
@@ -702,7 +702,7 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
         return;
     }
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return;
     }
@@ -724,20 +724,37 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
 
 void CommsFloatField::commsAddInvalidOptInternal(GenStringsList& opts) const
 {
-    auto obj = genFloatFieldParseObj();
-
-    if (!obj.parseValidRanges().empty()) {
+    if (!commsValidRangesInternal().empty()) {
         opts.push_back("comms::option::def::InvalidByDefault");
     }
 }
 
+commsdsl::parse::ParseFloatField::ParseValidRangesList CommsFloatField::commsValidRangesInternal() const
+{
+    auto obj = genFloatFieldParseObj();
+    bool validCheckVersion =
+        genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
+        obj.parseValidCheckVersion();
+
+    auto validRanges = obj.parseValidRanges(); // copy
+    validRanges.erase(
+        std::remove_if(
+            validRanges.begin(), validRanges.end(),
+            [this, validCheckVersion](auto& r)
+            {
+                return !genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion);
+            }),
+        validRanges.end());
+    return validRanges;
+}
+
 CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInternal() const
 {
     util::GenStringsList conditions;
     auto obj = genFloatFieldParseObj();
     auto type = obj.parseType();
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     for (auto& r : validRanges) {
         if (commsIsLimit(r.m_min)) {
             commsAddCondition(conditions, commsCmpToString(r.m_min, type));
@@ -753,7 +770,7 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInter
 CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedConditionsInternal() const
 {
     auto obj = genFloatFieldParseObj();
-    auto validRanges = obj.parseValidRanges(); // copy
+    auto validRanges = commsValidRangesInternal();
 
     std::sort(
         validRanges.begin(), validRanges.end(),
diff --git a/app/commsdsl2comms/src/CommsFloatField.h b/app/commsdsl2comms/src/CommsFloatField.h
index 43faf7a..c2cb5da 100644
--- a/app/commsdsl2comms/src/CommsFloatField.h
+++ b/app/commsdsl2comms/src/CommsFloatField.h
@@ -67,6 +67,7 @@ private:
     void commsAddVersionOptInternal(GenStringsList& opts) const;
     void commsAddInvalidOptInternal(GenStringsList& opts) const;
 
+    commsdsl::parse::ParseFloatField::ParseValidRangesList commsValidRangesInternal() const;
     GenStringsList commsValidNormalConditionsInternal() const;
     GenStringsList commsValidVersionBasedConditionsInternal() const;
 };
-- 
2.43.0


From 8df2ca1f9b7c0a651f5c6a93f0c0e9b3a873bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 63/96] fix: Respect version dependent ranges of integer fields
 when refreshing

---
 app/commsdsl2comms/src/CommsIntField.cpp | 30 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index c39993c..fda398e 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -276,16 +276,36 @@ std::string CommsIntField::commsDefRefreshFuncBodyImpl() const
 
     static const std::string Templ =
         "bool updated = Base::refresh();\n"
-        "if (Base::valid()) {\n"
+        "if (this->valid()) {\n"
         "    return updated;\n"
-        "};\n"
+        "}\n\n"
         "Base::setValue(#^#VALID_VALUE#$#);\n"
         "return true;\n";
 
     auto obj = genIntFieldParseObj();
     auto& validRanges = obj.parseValidRanges();
+    bool validCheckVersion =
+        genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
+        obj.parseValidCheckVersion();
+
+    // Prefer the value which is valid for all the supported versions
+    auto iter =
+        std::find_if(
+            validRanges.begin(), validRanges.end(),
+            [this, validCheckVersion](auto& r)
+            {
+                return
+                    genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion) &&
+                    ((!validCheckVersion) ||
+                     (!genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true)));
+            });
+
+    if (iter == validRanges.end()) {
+        iter = validRanges.begin();
+    }
+
     util::GenReplacementMap repl = {
-        {"VALID_VALUE", util::genNumToString(validRanges.front().m_min)},
+        {"VALID_VALUE", util::genNumToString(iter->m_min)},
     };
     return util::genProcessTemplate(Templ, repl);
 }
@@ -308,7 +328,9 @@ std::string CommsIntField::commsDefValidFuncBodyImpl() const
             validRanges.begin(), validRanges.end(),
             [this](auto& r)
             {
-                return !this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true);
+                return
+                    (!this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, false)) ||
+                    (!this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true));
             }),
         validRanges.end());
 
-- 
2.43.0


From cd62dac1579262877ed8ce2db62dbbd1cc5dc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:55 +0000
Subject: [PATCH 64/96] fix: Keep values of enum fields that do not exist in
 the generated version

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 20 +++++++++++++++-----
 app/commsdsl2comms/src/CommsEnumField.h   |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 5ab786a..1970f0d 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -75,7 +75,7 @@ CommsEnumField::GenStringsList CommsEnumField::commsEnumValues() const
         }
 
         bool exists =
-            genGenerator().genDoesElementExist(
+            commsValueExistsInternal(
                 iter->second.m_sinceVersion,
                 iter->second.m_deprecatedSince,
                 false);
@@ -340,7 +340,7 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             assert(iter->second != nullptr);
             auto valIter = values.find(*iter->second);
             assert(valIter != values.end());
-            if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, true)) {
+            if (!commsValueExistsInternal(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, true)) {
                 continue;
             }
 
@@ -565,7 +565,7 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
     m_validRanges.reserve(values.size());
     for (auto& v : values) {
         bool exists =
-            gen.genDoesElementExist(
+            commsValueExistsInternal(
                 v.second.m_sinceVersion,
                 v.second.m_deprecatedSince,
                 !validCheckVersion);
@@ -695,6 +695,16 @@ bool CommsEnumField::commsIsDirectValueNameMappingInternal() const
     return true;
 }
 
+bool CommsEnumField::commsValueExistsInternal(unsigned sinceVersion, unsigned deprecatedSince, bool deprecatedRemoved) const
+{
+    if (sinceVersion <= genParseObj().parseSinceVersion()) {
+        // Appears together with the field itself
+        sinceVersion = 0U;
+    }
+
+    return genGenerator().genDoesElementExist(sinceVersion, deprecatedSince, deprecatedRemoved);
+}
+
 std::string CommsEnumField::commsCommonEnumInternal() const
 {
     auto& gen = genGenerator();
@@ -984,7 +994,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 
         auto valIter = values.find(v.second);
         assert(valIter != values.end());
-        if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
+        if (!commsValueExistsInternal(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
             continue; // The value is not defined
         }
 
@@ -1073,7 +1083,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 
         auto valIter = values.find(v.second);
         assert(valIter != values.end());
-        if (!genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
+        if (!commsValueExistsInternal(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, false)) {
             continue; // The value is not defined
         }
 
diff --git a/app/commsdsl2comms/src/CommsEnumField.h b/app/commsdsl2comms/src/CommsEnumField.h
index 0532838..18ea7c5 100644
--- a/app/commsdsl2comms/src/CommsEnumField.h
+++ b/app/commsdsl2comms/src/CommsEnumField.h
@@ -75,6 +75,7 @@ private:
 
     bool commsPrepareValidRangesInternal();
     bool commsIsDirectValueNameMappingInternal() const;
+    bool commsValueExistsInternal(unsigned sinceVersion, unsigned deprecatedSince, bool deprecatedRemoved) const;
     std::string commsCommonEnumInternal() const;
     std::string commsCommonValueNameMapInternal() const;
     std::string commsCommonValueNameFuncCodeInternal() const;
-- 
2.43.0


From d75af8e5b89c9ccc2acb46f6ebb62b210dbb8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 65/96] fix: Use proper destructor name of version optional
 variant

---
 app/commsdsl2comms/src/CommsField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 3419fde..d009043 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1571,7 +1571,7 @@ std::string CommsField::commsDefDestructCodeInternal() const
 
     static const std::string Templ =
         "/// @brief Destructor\n"
-        "~#^#CLASS_NAME#$##^#ORIG#$#()\n"
+        "~#^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
@@ -1581,6 +1581,10 @@ std::string CommsField::commsDefDestructCodeInternal() const
         {"BODY", std::move(body)}
     };
 
+    if (commsIsVersionOptional()) {
+        repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+    }
+
     if (commsIsExtended()) {
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
-- 
2.43.0


From f7397b806fb32a91df03d87e1a4b7de75df018e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 66/96] fix: Use proper type prefix when interface field is
 compared to other field

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index eaae26b..2029267 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -766,8 +766,7 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
     auto valueStr = rightPrefix + rightField->commsValueAccessStr(rightAccStr);
     auto typeCast = leftField->commsCompValueCastType(leftAccStr);
     if (!typeCast.empty()) {
-        auto accName = comms::genAccessName(leftField->commsGenField().genParseObj().parseName());
-        valueStr = "static_cast<typename Field_" + accName + "::" + typeCast + ">(" + valueStr + ")";
+        valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + leftAccName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
     auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
-- 
2.43.0


From f97d70cf681d06531677bf24879e7b31dbeadcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 67/96] fix: Do not truncate values when comparing two fields
 in conditions

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 154 +++++++++++++++++-
 1 file changed, 153 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index 2029267..b0d8e7e 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -22,6 +22,13 @@
 #include "commsdsl/gen/comms.h"
 #include "commsdsl/gen/util.h"
 #include "commsdsl/gen/strings.h"
+#include "commsdsl/parse/ParseBitfieldField.h"
+#include "commsdsl/parse/ParseBundleField.h"
+#include "commsdsl/parse/ParseEnumField.h"
+#include "commsdsl/parse/ParseIntField.h"
+#include "commsdsl/parse/ParseOptionalField.h"
+#include "commsdsl/parse/ParseRefField.h"
+#include "commsdsl/parse/ParseSetField.h"
 
 #include <algorithm>
 #include <cassert>
@@ -59,6 +66,140 @@ const std::string commsGetFieldTypePrefixInternal(const CommsField& field)
     return Str;
 }
 
+struct CommsNumTypeInfo
+{
+    unsigned m_bits = 0U; // 0 when not a number
+    bool m_signed = false;
+    bool m_float = false;
+};
+
+CommsNumTypeInfo commsNumTypeInfoInternal(const commsdsl::parse::ParseField& field, const std::string& accStr)
+{
+    using ParseKind = commsdsl::parse::ParseField::ParseKind;
+    CommsNumTypeInfo result;
+    if (!field.parseValid()) {
+        return result;
+    }
+
+    auto kind = field.parseKind();
+    if (kind == ParseKind::Ref) {
+        return commsNumTypeInfoInternal(commsdsl::parse::ParseRefField(field).parseField(), accStr);
+    }
+
+    if (!accStr.empty()) {
+        auto sepPos = accStr.find('.');
+        std::string name(accStr, 0, sepPos);
+        std::string rest;
+        if (sepPos < accStr.size()) {
+            rest = accStr.substr(sepPos + 1U);
+        }
+
+        if (kind == ParseKind::Optional) {
+            return commsNumTypeInfoInternal(commsdsl::parse::ParseOptionalField(field).parseField(), rest);
+        }
+
+        auto fromMembers =
+            [&name, &rest, &result](const auto& members)
+            {
+                auto iter =
+                    std::find_if(
+                        members.begin(), members.end(),
+                        [&name](auto& m)
+                        {
+                            return m.parseName() == name;
+                        });
+
+                return (iter != members.end()) ? commsNumTypeInfoInternal(*iter, rest) : result;
+            };
+
+        if (kind == ParseKind::Bundle) {
+            return fromMembers(commsdsl::parse::ParseBundleField(field).parseMembers());
+        }
+
+        if (kind == ParseKind::Bitfield) {
+            return fromMembers(commsdsl::parse::ParseBitfieldField(field).parseMembers());
+        }
+
+        return result;
+    }
+
+    auto fromIntType =
+        [&result, &field](commsdsl::parse::ParseIntField::ParseType type)
+        {
+            auto& typeStr = comms::genCppIntTypeFor(type, field.parseMaxLength());
+            static const std::string UnsignedPrefix("std::uint");
+            static const std::string SignedPrefix("std::int");
+            result.m_signed = (typeStr.compare(0, UnsignedPrefix.size(), UnsignedPrefix) != 0);
+            auto& prefix = result.m_signed ? SignedPrefix : UnsignedPrefix;
+            result.m_bits = static_cast<unsigned>(std::stoul(typeStr.substr(prefix.size())));
+        };
+
+    if (kind == ParseKind::Int) {
+        fromIntType(commsdsl::parse::ParseIntField(field).parseType());
+    }
+    else if (kind == ParseKind::Enum) {
+        fromIntType(commsdsl::parse::ParseEnumField(field).parseType());
+    }
+    else if (kind == ParseKind::Set) {
+        fromIntType(commsdsl::parse::ParseSetField(field).parseType());
+    }
+    else if (kind == ParseKind::Float) {
+        result.m_float = true;
+        result.m_bits = static_cast<unsigned>(field.parseMaxLength() * 8U);
+    }
+
+    return result;
+}
+
+// Make sure both operands can be represented by the type used for the comparison
+std::string commsCompNumFieldsInternal(
+    const CommsNumTypeInfo& leftInfo,
+    const CommsNumTypeInfo& rightInfo,
+    const std::string& left,
+    const std::string& op,
+    const std::string& right)
+{
+    if ((leftInfo.m_bits == 0U) || (rightInfo.m_bits == 0U) || (leftInfo.m_float != rightInfo.m_float)) {
+        return strings::genEmptyString();
+    }
+
+    if ((leftInfo.m_signed == rightInfo.m_signed) && (rightInfo.m_bits <= leftInfo.m_bits)) {
+        // Cast of the right operand to the type of the left is safe.
+        return strings::genEmptyString();
+    }
+
+    auto compAs =
+        [&left, &op, &right](const std::string& type)
+        {
+            return "static_cast<" + type + ">(" + left + ") " + op + " static_cast<" + type + ">(" + right + ")";
+        };
+
+    if (leftInfo.m_float) {
+        return compAs("double");
+    }
+
+    static const unsigned MaxBits = 64U;
+    if (leftInfo.m_signed == rightInfo.m_signed) {
+        return compAs(leftInfo.m_signed ? "std::int64_t" : "std::uint64_t");
+    }
+
+    auto unsignedBits = leftInfo.m_signed ? rightInfo.m_bits : leftInfo.m_bits;
+    if (unsignedBits < MaxBits) {
+        return compAs("std::int64_t");
+    }
+
+    auto& signedValue = leftInfo.m_signed ? left : right;
+    auto isNegative = "(static_cast<std::int64_t>(" + signedValue + ") < 0)";
+    auto notNegative = "(0 <= static_cast<std::int64_t>(" + signedValue + "))";
+    bool negativeResult = (op == "!=") || (op[0] == (leftInfo.m_signed ? '<' : '>'));
+    auto comp = "(" + compAs("std::uint64_t") + ")";
+    if (negativeResult) {
+        return "(" + isNegative + " || " + comp + ")";
+    }
+
+    return "(" + notNegative + " && " + comp + ")";
+}
+
 const CommsField* commsFindInterfaceFieldInternal(const commsdsl::gen::GenGenerator& generator, const std::string refStr)
 {
     if (refStr.empty()) {
@@ -769,7 +910,18 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
         valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + leftAccName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
-    auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
+    auto leftValueStr = leftPrefix + leftField->commsValueAccessStr(leftAccStr);
+    auto expr =
+        commsCompNumFieldsInternal(
+            commsNumTypeInfoInternal(leftField->commsGenField().genParseObj(), leftAccStr),
+            commsNumTypeInfoInternal(rightField->commsGenField().genParseObj(), rightAccStr),
+            leftValueStr,
+            op,
+            rightPrefix + rightField->commsValueAccessStr(rightAccStr));
+
+    if (expr.empty()) {
+        expr = leftValueStr + ' ' + op + ' ' + valueStr;
+    }
 
     if (optConds.empty()) {
         return expr;
-- 
2.43.0


From f03f250cdac66de698ab994c3f82c504a92c07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 68/96] fix: Do not fail on big unsigned number compared to
 enum in condition

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 1970f0d..3f5d4c5 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -20,6 +20,7 @@
 #include "CommsNamespace.h"
 
 #include "commsdsl/gen/comms.h"
+#include "commsdsl/gen/GenIntField.h"
 #include "commsdsl/gen/util.h"
 #include "commsdsl/gen/strings.h"
 
@@ -505,6 +506,10 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
     }
 
     try {
+        if (commsdsl::gen::GenIntField::genIsUnsignedType(genEnumFieldParseObj().parseType())) {
+            return util::genNumToString(static_cast<std::uintmax_t>(std::stoull(value, nullptr, 0)));
+        }
+
         auto val = static_cast<std::intmax_t>(std::stoll(value, nullptr, 0));
         return util::genNumToString(val);
     }
-- 
2.43.0


From 21add15b69f7f6b3b3ad23f9eb979a1b78d2ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 69/96] fix: Keep remaining length member of bundle up to date
 when presence of other members is refreshed

---
 app/commsdsl2comms/src/CommsBundleField.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsBundleField.cpp b/app/commsdsl2comms/src/CommsBundleField.cpp
index 62b3429..74588dd 100644
--- a/app/commsdsl2comms/src/CommsBundleField.cpp
+++ b/app/commsdsl2comms/src/CommsBundleField.cpp
@@ -307,6 +307,7 @@ std::string CommsBundleField::commsDefRefreshFuncBodyImpl() const
     static const std::string Templ =
         "bool updated = Base::refresh();\n"
         "#^#FIELDS#$#\n"
+        "#^#LENGTH#$#\n"
         "return updated;\n";
 
     assert(m_commsMembers.size() == m_bundledRefreshCodes.size());
@@ -328,6 +329,20 @@ std::string CommsBundleField::commsDefRefreshFuncBodyImpl() const
     util::GenReplacementMap repl = {
         {"FIELDS", util::genStrListToString(fields, "\n", "")}
     };
+
+    bool hasLength =
+        std::any_of(
+            m_commsMembers.begin(), m_commsMembers.end(),
+            [](auto* m)
+            {
+                return m->commsGenField().genParseObj().parseSemanticType() == ParseField::ParseSemanticType::Length;
+            });
+
+    if (hasLength) {
+        // The refresh above may change the length of the remaining members
+        repl["LENGTH"] = "updated = Base::refresh() || updated;";
+    }
+
     return util::genProcessTemplate(Templ, repl);
 }
 
-- 
2.43.0


From 24d3f403b4f9f640a52627d69fff827ff296d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 70/96] fix: Respect failOnInvalid property of bundle with
 optional members

---
 app/commsdsl2comms/src/CommsBundleField.cpp | 16 ++++++++++++++++
 app/commsdsl2comms/src/CommsField.h         |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsBundleField.cpp b/app/commsdsl2comms/src/CommsBundleField.cpp
index 74588dd..e63a5f4 100644
--- a/app/commsdsl2comms/src/CommsBundleField.cpp
+++ b/app/commsdsl2comms/src/CommsBundleField.cpp
@@ -294,11 +294,27 @@ std::string CommsBundleField::commsDefReadFuncBodyImpl() const
         "do {\n"
         "    #^#READS#$#\n"
         "} while(false);\n"
+        "#^#FAIL_ON_INVALID#$#\n"
         "return es;";
 
     util::GenReplacementMap repl = {
         {"READS", util::genStrListToString(reads, "\n", "")},
     };
+
+    // Partial reads of the base class don't check the validity of the field
+    if (commsIsForcedFailOnInvalid() || genParseObj().parseIsFailOnInvalid()) {
+        static const std::string FailOnInvalidTempl =
+            "if ((es == comms::ErrorStatus::Success) && (!this->valid())) {\n"
+            "    es = comms::ErrorStatus::#^#ERROR#$#;\n"
+            "}\n";
+
+        util::GenReplacementMap failOnInvalidRepl = {
+            {"ERROR", commsIsForcedFailOnInvalid() ? "ProtocolError" : "InvalidMsgData"},
+        };
+
+        repl["FAIL_ON_INVALID"] = util::genProcessTemplate(FailOnInvalidTempl, failOnInvalidRepl);
+    }
+
     return util::genProcessTemplate(Templ, repl);
 }
 
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 44a87af..79db9bf 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -76,6 +76,11 @@ public:
         m_forcedFailOnInvalid = true;
     }
 
+    bool commsIsForcedFailOnInvalid() const
+    {
+        return m_forcedFailOnInvalid;
+    }
+
     void commsSetForcePseudo()
     {
         m_forcedPseudo = true;
-- 
2.43.0


From 2829d69432d35282efca818bcf9360d2329646e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 71/96] fix: Generate compilable code when construct condition
 compares two interface fields

---
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6fbdbde..9e39ff4 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -157,7 +157,7 @@ void commsUpdateConstructExprInternal(
             return;
         }
 
-        valStr = rightInfo.first->commsValueAccessStr(rightInfo.second, commsInterfaceFieldAccStrInternal(*rightInfo.first));
+        valStr = rightInfo.first->commsValueAccessStr(rightInfo.second, "Base::" + commsInterfaceFieldAccStrInternal(*rightInfo.first));
     }
     else {
         valStr = leftInfo.first->commsCompPrepValueStr(leftInfo.second, right);
-- 
2.43.0


From 623bc9e99320c258942cd68e8047b07dda6f1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 72/96] fix: Output customization options of frame layer fields

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..0ec43fc 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -449,7 +449,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             {"SCOPE", comms::genScopeFor(m_genLayer, m_genLayer.genGenerator())},
             {"CLASS_NAME", comms::genClassName(m_genLayer.genParseObj().parseName())},
             {"SUFFIX", strings::genMembersSuffixStr()},
-            {"FIELD_OPTS", std::move(fieldOpts)}
+            {"FIELD_OPT", std::move(fieldOpts)}
         };
 
         if (hasBase) {
-- 
2.43.0


From 539692e8be780f6160784ad9509942a539791a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 73/96] fix: Respect order of suffix layers when relocating
 custom checksum

---
 lib/src/gen/GenCustomLayer.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/src/gen/GenCustomLayer.cpp b/lib/src/gen/GenCustomLayer.cpp
index 605c90d..afa221d 100644
--- a/lib/src/gen/GenCustomLayer.cpp
+++ b/lib/src/gen/GenCustomLayer.cpp
@@ -115,20 +115,16 @@ bool GenCustomLayer::genForceCommsOrderImpl(GenLayersAccessList& layers, bool& s
         return false;
     }
 
-    auto iterTmp = iter;
-    std::advance(iterTmp, 1U);
-    if (iterTmp == fromIter) {
-        // Already in place
-        success = true;
-        return false;
+    auto dist = std::distance(iter, fromIter);
+    if (dist < 0) {
+        // Not relocated yet
+        auto* thisPtr = *iter;
+        layers.erase(iter);
+        layers.insert(fromIter, thisPtr);
     }
 
-    auto thisPtr = std::move(*iter);
-    layers.erase(iter);
-    layers.insert(fromIter, std::move(thisPtr));
-    success = true;
-    return true;
-
+    // Already in place
+    return genAdjustSuffixLayersOrder(layers, success);
 }
 
 } // namespace gen
-- 
2.43.0


From 1e0bd3d456de972771bb36c4634ff0f60a7a8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 74/96] fix: Don't require protocol options for fields of
 interfaces

---
 app/commsdsl2comms/src/CommsDataField.cpp   |  2 +-
 app/commsdsl2comms/src/CommsField.cpp       | 14 ++++++++++++++
 app/commsdsl2comms/src/CommsField.h         |  1 +
 app/commsdsl2comms/src/CommsListField.cpp   | 10 +++++-----
 app/commsdsl2comms/src/CommsStringField.cpp |  2 +-
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 8858d31..f3c03b4 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -484,7 +484,7 @@ void CommsDataField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index d009043..f77fd96 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -487,6 +487,11 @@ const CommsField* CommsField::commsFindSibling(const std::string& name) const
 
 bool CommsField::commsIsFieldCustomizable() const
 {
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // The interface class doesn't receive protocol options
+        return false;
+    }
+
     auto& generator = static_cast<CommsGenerator&>(m_genField.genGenerator());
     auto level = generator.commsGetCustomizationLevel();
     if (level == CommsGenerator::CommsCustomizationLevel::Full) {
@@ -787,6 +792,15 @@ std::string CommsField::commsFieldBaseParams(commsdsl::parse::ParseEndian endian
     return comms::genParseEndianToOpt(endian);
 }
 
+std::string CommsField::commsDefTemplOptParam() const
+{
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        return strings::genEmptyString();
+    }
+
+    return "TOpt";
+}
+
 void CommsField::commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj) const
 {
     if (comms::genIsGlobalField(m_genField)) {
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 79db9bf..9a4f018 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -157,6 +157,7 @@ protected:
 
     std::string commsCommonNameFuncCode() const;
     std::string commsFieldBaseParams(commsdsl::parse::ParseEndian endian) const;
+    std::string commsDefTemplOptParam() const;
     void commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj = false) const;
     void commsAddFieldTypeOption(commsdsl::gen::util::GenStringsList& opts) const;
     bool commsIsExtended() const;
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 1f2d779..c40dc90 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -591,7 +591,7 @@ std::string CommsListField::commsDefElementInternal() const
     }
 
     assert(m_commsExternalElementField != nullptr);
-    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<TOpt>";
+    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<" + commsDefTemplOptParam() + ">";
 }
 
 void CommsListField::commsAddFixedLengthOptInternal(GenStringsList& opts) const
@@ -627,7 +627,7 @@ void CommsListField::commsAddCountPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalCountPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalCountPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSizeFieldPrefix<" + prefixName + '>');
@@ -651,7 +651,7 @@ void CommsListField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
@@ -675,7 +675,7 @@ void CommsListField::commsAddElemLengthPrefixOptInternal(GenStringsList& opts) c
     else {
         assert(m_commsExternalElemLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalElemLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     std::string opt = "SequenceElemSerLengthFieldPrefix";
@@ -704,7 +704,7 @@ void CommsListField::commsAddTermSuffixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalTermSuffixField != nullptr);
         suffixName = comms::genScopeFor(m_commsExternalTermSuffixField->commsGenField(), genGenerator(), true, true);
-        suffixName += "<TOpt> ";
+        suffixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceTerminationFieldSuffix<" + suffixName + '>');
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index b48d252..3d609fd 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -489,7 +489,7 @@ void CommsStringField::commsAddLengthPrefixOptInternal(GenStringsList& opts) con
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsDefTemplOptParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
-- 
2.43.0


From e3949e8ebf8e03d028b967eab7fb9698fca480bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 75/96] fix: Generate message bundles for namespaces with
 frames only

---
 app/commsdsl2comms/src/CommsNamespace.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 0979199..a260ba0 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -378,8 +378,7 @@ std::string CommsNamespace::commsMsgFactoryAliasType() const
 
 std::string CommsNamespace::commsMsgFactoryAliasDef(const std::string& namePrefix, const std::string& typeSuffix) const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return std::string();
     }
 
@@ -425,8 +424,7 @@ bool CommsNamespace::genWriteImpl() const
         return false;
     }
 
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
-- 
2.43.0


From 603f8f3772e076ecfd25f722826d3a4a565c4153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 76/96] fix: Reference interfaces and messages of nested
 namespaces

Messages and interfaces of namespaces nested in other namespaces were never marked as referenced, as the result their definition wasn't written.
---
 lib/src/gen/GenNamespace.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..ea393b9 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -183,6 +183,10 @@ public:
 
     void genSetAllInterfacesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllInterfacesReferenced();
+        }
+
         for (auto& iPtr : m_interfaces) {
             iPtr->genSetReferenced(true);
         }
@@ -190,6 +194,10 @@ public:
 
     void genSetAllMessagesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllMessagesReferenced();
+        }
+
         for (auto& mPtr : m_messages) {
             mPtr->genSetReferenced(true);
         }
-- 
2.43.0


From de6a912fa4a2338eacdef064f89e556d93e41857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 77/96] fix: Use full scope of nested namespaces

Only the name of the innermost namespace was used for the input messages, dispatch, factory and message id definitions, as the result the generated files were placed and referenced incorrectly.
---
 lib/src/gen/comms.cpp | 48 +++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..07526f1 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -45,6 +45,18 @@ const std::string GenScopeSep("::");
 const std::string GenPathSep("/");
 const std::size_t GenMaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+void genAddNamespaceSubElems(const GenNamespace& ns, std::vector<std::string>& subElems)
+{
+    auto* parent = ns.genGetParent();
+    if ((parent != nullptr) && (parent->genElemType() == GenElem::GenType_Namespace)) {
+        genAddNamespaceSubElems(static_cast<const GenNamespace&>(*parent), subElems);
+    }
+
+    if (!ns.genName().empty()) {
+        subElems.push_back(ns.genName());
+    }
+}
+
 std::string genScopeForElement(
     const std::string& name,
     const GenGenerator& generator,
@@ -373,9 +385,7 @@ std::string genScopeForInput(
     bool addElement)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -389,9 +399,7 @@ std::string genScopeForFactory(
     bool addElement)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -405,9 +413,7 @@ std::string genScopeForDispatch(
     bool addElement)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -432,9 +438,7 @@ std::string genScopeForNamespaceMember(
     bool addElement)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
@@ -512,9 +516,7 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -523,9 +525,7 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -540,9 +540,7 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
@@ -550,9 +548,7 @@ std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGen
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
@@ -580,9 +576,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    genAddNamespaceSubElems(ns, subElems);
 
     subElems.push_back(strings::genInputNamespaceStr());
 
-- 
2.43.0


From 6f3a56cc4bfe8c23b6fafdba6a7e876ced38d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 78/96] fix: Use type of the listed ids for the schema-wide
 message ids enum

---
 app/commsdsl2comms/src/CommsMsgId.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index bfc3d45..30b99f7 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -99,6 +99,10 @@ bool CommsMsgId::commsWrite() const
 std::string CommsMsgId::commsTypeInternal() const
 {
     auto allMsgIdFields = m_parent.genFindMessageIdFields();
+    if (allMsgIdFields.empty() && m_parent.genName().empty()) {
+        allMsgIdFields = m_commsGenerator.genCurrentSchema().genGetAllMessageIdFields();
+    }
+
     if (allMsgIdFields.size() == 1U) {
         auto* msgIdField = allMsgIdFields.front();
         assert(msgIdField->genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Enum);
@@ -108,6 +112,10 @@ std::string CommsMsgId::commsTypeInternal() const
     }
 
     auto allMessages = m_parent.genGetAllMessages();
+    if (allMessages.empty() && m_parent.genName().empty()) {
+        allMessages = m_commsGenerator.genCurrentSchema().genGetAllMessages();
+    }
+
     auto iter =
         std::max_element(
             allMessages.begin(), allMessages.end(),
-- 
2.43.0


From 7743017ef42752749a9cf595ac9681cab2d526f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 79/96] fix: Use valid literal for message ids with highest bit
 set

---
 lib/src/gen/util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index abe044b..adb8723 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -410,6 +410,10 @@ std::string genNumToString(std::intmax_t value)
 
 std::string genNumToStringWithHexComment(std::intmax_t value)
 {
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        return genNumToString(value);
+    }
+
     std::stringstream stream;
     if (0 <= value) {
         stream << std::hex << "0x" << value;
-- 
2.43.0


From 82202c061c31db34461702d6aa0ca1dec3180232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 80/96] fix: Do not form trigraphs in the generated string
 literals

---
 lib/src/gen/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index adb8723..94ca0d0 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -745,7 +745,8 @@ std::string genStrToLiteral(const std::string& value)
     result.reserve(value.size() + 2U);
     result.push_back('\"');
     for (auto ch : value) {
-        if ((ch == '\\') || (ch == '\"')) {
+        bool trigraph = (ch == '?') && (result.back() == '?');
+        if ((ch == '\\') || (ch == '\"') || trigraph) {
             result.push_back('\\');
             result.push_back(ch);
             continue;
-- 
2.43.0


From ab2b0d21b714e520787281552e8fb84cfa6d4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 81/96] fix: Use main namespace in the options of payload layer

---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index cd03cbc..b31e304 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -137,11 +137,12 @@ std::string CommsPayloadLayer::commsCustomFieldDataViewOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& gen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
-        {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"SCOPE", comms::genScopeFor(*this, gen)},
+        {"OPT_SCOPE", comms::genScopeFor(*this, gen, gen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -161,11 +162,12 @@ std::string CommsPayloadLayer::commsCustomFieldBareMetalOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& gen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
-        {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"SCOPE", comms::genScopeFor(*this, gen)},
+        {"OPT_SCOPE", comms::genScopeFor(*this, gen, gen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 660a8a453ef0a9bfa9bd5e88439ec50c76d89273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 82/96] fix: Prevent comments ending with backslash from
 swallowing the following code

---
 lib/src/gen/util.cpp | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 94ca0d0..0e93ad5 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -187,6 +187,42 @@ void genDoTidyCode(std::string& code)
     genCleanNewLinesBeforeCloseBracket(code);
 }
 
+// The text is going to be put into the comments, the line ending with backslash
+// (or its trigraph) would swallow the code following the comment.
+std::string genStrAvoidLineSplicing(const std::string& value)
+{
+    static const std::string WhiteSpace(" \t\r\v\f");
+    std::string result;
+    result.reserve(value.size() + 1U);
+    std::size_t pos = 0U;
+    while (true) {
+        auto endPos = std::min(value.find('\n', pos), value.size());
+        auto line = value.substr(pos, endPos - pos);
+        result += line;
+
+        auto lastPos = line.find_last_not_of(WhiteSpace);
+        if (lastPos != std::string::npos) {
+            static const std::string Trigraph("?" "?/");
+            bool spliced =
+                (line[lastPos] == '\\') ||
+                ((Trigraph.size() <= lastPos + 1U) && (line.compare(lastPos + 1U - Trigraph.size(), Trigraph.size(), Trigraph) == 0));
+
+            if (spliced) {
+                result.push_back('.');
+            }
+        }
+
+        if (value.size() <= endPos) {
+            break;
+        }
+
+        result.push_back('\n');
+        pos = endPos + 1U;
+    }
+
+    return result;
+}
+
 } // namespace
 
 std::string genStrReplace(const std::string& str, const std::string& what, const std::string& with)
@@ -647,7 +683,7 @@ void genAddToStrList(const std::string& value, GenStringsList& list)
 std::string genStrMakeMultiline(const std::string& value, unsigned len, bool dropReplacedWhiteChar)
 {
     if (value.size() <= len) {
-        return value;
+        return genStrAvoidLineSplicing(value);
     }
 
     assert(0U < len);
@@ -719,7 +755,7 @@ std::string genStrMakeMultiline(const std::string& value, unsigned len, bool dro
         result.insert(result.end(), value.begin() + pos, value.end());
     }
 
-    return result;
+    return genStrAvoidLineSplicing(result);
 }
 
 std::string genReadFileContents(const std::string& filePath)
-- 
2.43.0


From 17090f693bd66f656765e83b5b7e307cdc9ee0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 83/96] fix: Include headers used by the specials of float
 field

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index a63fdd5..306da48 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -226,6 +226,11 @@ CommsFloatField::CommsIncludesList CommsFloatField::commsCommonIncludesImpl() co
         result.push_back("<limits>");
     }
 
+    if (!specials.empty()) {
+        result.push_back("<type_traits>");
+        result.push_back("<utility>");
+    }
+
     return result;
 }
 
-- 
2.43.0


From 7f3cbcf55bcfa9b8d106c6122c8a180b3bf48467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 84/96] fix: Read the whole text of the element, including
 CDATA and text after comments

---
 lib/src/parse/ParseXmlWrap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..ac9e750 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -110,15 +110,17 @@ std::string ParseXmlWrap::parseGetText(::xmlNodePtr node)
         child = child->next;
     }
 
+    // The text can be split by the comments
+    std::string result;
     child = node->children;
     while (child != nullptr) {
-        if (child->type == XML_TEXT_NODE) {
+        if ((child->type == XML_TEXT_NODE) || (child->type == XML_CDATA_SECTION_NODE)) {
             ParseStringPtr valuePtr(::xmlNodeGetContent(child));
-            return std::string(reinterpret_cast<const char*>(valuePtr.get()));
+            result += reinterpret_cast<const char*>(valuePtr.get());
         }
         child = child->next;
     }
-    return std::string();
+    return result;
 }
 
 bool ParseXmlWrap::parseNodeValue(
-- 
2.43.0


From ad7f76d186a8b8b20ab2d7d39dff25d778da7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 85/96] fix: Allow replacing of multiple fields of the reused
 message

---
 lib/src/parse/ParseMessageImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 861b9dc..4d984af 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -857,7 +857,7 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    if (fieldsTypes.size() != ParseXmlWrap::parseGetChildren(replaceNodes.front()).size()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From 2d65309332671793e48268ccd7fccf4c3024a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 86/96] fix: Verify validateMinLength of messages without own
 fields

---
 lib/src/parse/ParseMessageImpl.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 4d984af..ac02762 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1058,18 +1058,17 @@ bool ParseMessageImpl::parseUpdateFields()
         if (!ParseFieldImpl::parseValidateMembersNames(m_state.m_fields, m_protocol.parseLogger())) {
             return false;
         }
+    } while (false);
 
-        if (0 <= m_state.m_validateMinLength) {
-            auto len = parseMinLength();
-            if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
-                parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                    "The calculated minimal length of the message is " << len <<
-                    " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
-                return false;
-            }
+    if (0 <= m_state.m_validateMinLength) {
+        auto len = parseMinLength();
+        if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The calculated minimal length of the message is " << len <<
+                " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
+            return false;
         }
-
-    } while (false);
+    }
 
     return true;
 }
-- 
2.43.0


From f98d0fa6bc9b98392475b050c0ae9789e700ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 87/96] fix: Verify references between siblings after replacing
 members

---
 lib/src/parse/ParseBundleFieldImpl.cpp |  2 +-
 lib/src/parse/ParseFieldImpl.cpp       | 16 ++++++++++++++++
 lib/src/parse/ParseFieldImpl.h         |  1 +
 lib/src/parse/ParseMessageImpl.cpp     |  6 +-----
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 962b17a..6bafcd7 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -213,7 +213,7 @@ bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
         (*iter) = std::move(mem);
     }
 
-    return true;
+    return parseVerifyMembersSiblings(m_members);
 }
 
 std::size_t ParseBundleFieldImpl::parseMinLengthImpl() const
diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index bb689da..91b7a5c 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -211,6 +211,22 @@ ParseXmlWrap::ParseNamesList ParseFieldImpl::parseSupportedTypes()
     return result;
 }
 
+bool ParseFieldImpl::parseVerifyMembersSiblings(ParseFieldsList& fields)
+{
+    ParseFieldsList verifiedFields;
+    verifiedFields.reserve(fields.size());
+    for (auto& f : fields) {
+        if (!f->parseVerifySiblings(verifiedFields)) {
+            return false;
+        }
+
+        verifiedFields.push_back(std::move(f));
+    }
+
+    fields = std::move(verifiedFields);
+    return true;
+}
+
 bool ParseFieldImpl::parseValidateMembersNames(
     const ParseFieldImpl::ParseFieldsList& fields,
     ParseLogger& logger)
diff --git a/lib/src/parse/ParseFieldImpl.h b/lib/src/parse/ParseFieldImpl.h
index b7d7764..74b0882 100644
--- a/lib/src/parse/ParseFieldImpl.h
+++ b/lib/src/parse/ParseFieldImpl.h
@@ -186,6 +186,7 @@ public:
 
     static ParseXmlWrap::ParseNamesList parseSupportedTypes();
 
+    static bool parseVerifyMembersSiblings(ParseFieldsList& fields);
     static bool parseValidateMembersNames(
             const ParseFieldsList& fields,
             ParseLogger& logger);
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index ac02762..44ccf62 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -882,10 +882,6 @@ bool ParseMessageImpl::parseReplaceFields()
             return false;
         }
 
-        if (!field->parseVerifySiblings(m_state.m_fields)) {
-            return false;
-        }
-
         replMembers.push_back(std::move(field));
     }
 
@@ -909,7 +905,7 @@ bool ParseMessageImpl::parseReplaceFields()
         (*iter) = std::move(field);
     }
 
-    return true;
+    return ParseFieldImpl::parseVerifyMembersSiblings(m_state.m_fields);
 }
 
 bool ParseMessageImpl::parseCopyAliases()
-- 
2.43.0


From 5260aebf78d953cb82271ee2b1d0f03aeb43f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 88/96] fix: Verify reused aliases after updating members

---
 lib/src/parse/ParseAliasImpl.cpp       | 16 ++++++++++++++++
 lib/src/parse/ParseAliasImpl.h         |  1 +
 lib/src/parse/ParseBundleFieldImpl.cpp |  4 ++++
 lib/src/parse/ParseInterfaceImpl.cpp   |  5 +++++
 lib/src/parse/ParseMessageImpl.cpp     |  5 +++++
 5 files changed, 31 insertions(+)

diff --git a/lib/src/parse/ParseAliasImpl.cpp b/lib/src/parse/ParseAliasImpl.cpp
index 1216620..755c4cf 100644
--- a/lib/src/parse/ParseAliasImpl.cpp
+++ b/lib/src/parse/ParseAliasImpl.cpp
@@ -87,6 +87,22 @@ bool ParseAliasImpl::parse()
     return true;
 }
 
+bool ParseAliasImpl::parseVerifyAliases(std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields)
+{
+    std::vector<ParsePtr> verifiedAliases;
+    verifiedAliases.reserve(aliases.size());
+    for (auto& a : aliases) {
+        if (!a->parseVerifyAlias(verifiedAliases, fields)) {
+            return false;
+        }
+
+        verifiedAliases.push_back(std::move(a));
+    }
+
+    aliases = std::move(verifiedAliases);
+    return true;
+}
+
 bool ParseAliasImpl::parseVerifyAlias(
     const std::vector<ParsePtr>& aliases,
     const std::vector<ParseFieldImplPtr>& fields) const
diff --git a/lib/src/parse/ParseAliasImpl.h b/lib/src/parse/ParseAliasImpl.h
index a877148..fed72e3 100644
--- a/lib/src/parse/ParseAliasImpl.h
+++ b/lib/src/parse/ParseAliasImpl.h
@@ -82,6 +82,7 @@ public:
         return m_node;
     }
 
+    static bool parseVerifyAliases(std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields);
     bool parseVerifyAlias(const std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields) const;
 
 protected:
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 6bafcd7..2770727 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -468,6 +468,10 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
                     return iter == m_members.end();
                 }),
             m_aliases.end());
+
+        if (!ParseAliasImpl::parseVerifyAliases(m_aliases, m_members)) {
+            return false;
+        }
     }
 
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 19fed64..8f33f37 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -628,6 +628,11 @@ void ParseInterfaceImpl::parseCloneAliasesFrom(const ParseBundleFieldImpl& other
 
 bool ParseInterfaceImpl::parseUpdateAliases()
 {
+    // The reused aliases may be affected by the updated fields
+    if (!ParseAliasImpl::parseVerifyAliases(m_state.m_aliases, m_state.m_fields)) {
+        return false;
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 44ccf62..ebd14db 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1071,6 +1071,11 @@ bool ParseMessageImpl::parseUpdateFields()
 
 bool ParseMessageImpl::parseUpdateAliases()
 {
+    // The reused aliases may be affected by the updated fields
+    if (!ParseAliasImpl::parseVerifyAliases(m_state.m_aliases, m_state.m_fields)) {
+        return false;
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
-- 
2.43.0


From 9057867caca7dd64e6345eae9aded770f5d7b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 89/96] fix: Verify reused validity condition after updating
 members

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 9 ++++++++-
 lib/src/parse/ParseBundleFieldImpl.h   | 1 +
 lib/src/parse/ParseMessageImpl.cpp     | 9 +++++++++
 lib/src/parse/ParseMessageImpl.h       | 1 +
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 2770727..3641fd7 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -188,7 +188,8 @@ bool ParseBundleFieldImpl::parseImpl()
         parseUpdateAliases() &&
         parseCopyValidCond() &&
         parseUpdateSingleValidCond() &&
-        parseUpdateMultiValidCond();
+        parseUpdateMultiValidCond() &&
+        parseVerifyValidCond();
 }
 
 bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
@@ -522,6 +523,12 @@ bool ParseBundleFieldImpl::parseUpdateMultiValidCond()
     return parseUpdateMultiCondInternal(common::parseValidCondStr(), m_validCond);
 }
 
+bool ParseBundleFieldImpl::parseVerifyValidCond()
+{
+    // The reused condition may be affected by the updated members
+    return (!m_validCond) || m_validCond->parseVerify(m_members, parseGetNode(), parseProtocol());
+}
+
 bool ParseBundleFieldImpl::parseCopyValidCond()
 {
     auto& prop = common::parseCopyValidCondFromStr();
diff --git a/lib/src/parse/ParseBundleFieldImpl.h b/lib/src/parse/ParseBundleFieldImpl.h
index bb1a417..18d3587 100644
--- a/lib/src/parse/ParseBundleFieldImpl.h
+++ b/lib/src/parse/ParseBundleFieldImpl.h
@@ -85,6 +85,7 @@ private:
     bool parseUpdateAliases();
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
+    bool parseVerifyValidCond();
     bool parseCopyValidCond();
 
     bool parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index ebd14db..4da8ddd 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -133,6 +133,7 @@ bool ParseMessageImpl::parse()
         parseUpdateMultiValidCond() &&
         parseCopyConstructToReadCond() &&
         parseCopyConstructToValidCond() &&
+        parseVerifyValidCond() &&
         parseUpdateExtraAttrs() &&
         parseUpdateExtraChildren();
 }
@@ -1292,6 +1293,14 @@ bool ParseMessageImpl::parseCopyReadCond()
     return true;
 }
 
+bool ParseMessageImpl::parseVerifyValidCond()
+{
+    // The reused condition may be affected by the updated fields
+    return
+        (!m_state.m_validCond) ||
+        m_state.m_validCond->parseVerify(m_state.m_fields, parseGetNode(), m_protocol);
+}
+
 bool ParseMessageImpl::parseCopyValidCond()
 {
     auto& prop = common::parseCopyValidCondFromStr();
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index 502efd4..c8b4168 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -315,6 +315,7 @@ private:
     bool parseUpdateCopyOverrideCodeFrom();
     bool parseCopyConstruct();
     bool parseCopyReadCond();
+    bool parseVerifyValidCond();
     bool parseCopyValidCond();
     bool parseUpdateSingleConstruct();
     bool parseUpdateMultiConstruct();
-- 
2.43.0


From 885a3b2b11a5227b434f5ee0f5fab64c0b16d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:17 +0000
Subject: [PATCH 90/96] fix: Update bitLength of reused ref field

---
 lib/src/parse/ParseRefFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 3a42e78..fdbaae7 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -83,7 +83,7 @@ bool ParseRefFieldImpl::parseImpl()
     if (propsIter == parseProps().end()) {
         assert(m_field != nullptr);
         assert(!parseName().empty());
-        return true;
+        return parseUpdateBitLength();
     }
 
     m_field = parseProtocol().parseFindField(propsIter->second);
-- 
2.43.0


From c04748f45b1b5f9805dc5cf64c6856661a10e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 91/96] fix: Verify references between siblings after removing
 members

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 5 +++++
 lib/src/parse/ParseMessageImpl.cpp     | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 3641fd7..9cd2560 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -329,6 +329,11 @@ bool ParseBundleFieldImpl::parseUpdateMembers()
         for (auto& m : m_members) {
             m->parseSetSinceVersion(std::max(parseGetSinceVersion(), m->parseGetSinceVersion()));
         }
+
+        // The removed members may be referenced by the others
+        if (!parseVerifyMembersSiblings(m_members)) {
+            return false;
+        }
     }
 
     do {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 4da8ddd..8c300ce 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -833,7 +833,9 @@ bool ParseMessageImpl::parseCopyFields()
             m->parseSetSinceVersion(std::max(parseGetSinceVersion(), m->parseGetSinceVersion()));
         }
     }
-    return true;
+
+    // The removed fields may be referenced by the others
+    return ParseFieldImpl::parseVerifyMembersSiblings(m_state.m_fields);
 }
 
 bool ParseMessageImpl::parseReplaceFields()
-- 
2.43.0


From cdca8a58da7af64de73df9a8f1a71f36ec6d2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 92/96] fix: Report failure to write options files

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From a566c2fe931cbbf7699d518afa2812cf1db5ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 93/96] fix: Report failure to close an output file

---
 app/commsdsl2c/src/CCmake.cpp                 |  2 +-
 app/commsdsl2c/src/CDoxygen.cpp               |  2 +-
 app/commsdsl2c/src/CErrorStatus.cpp           |  4 ++--
 app/commsdsl2c/src/CField.cpp                 |  6 ++---
 app/commsdsl2c/src/CFrame.cpp                 |  6 ++---
 app/commsdsl2c/src/CInputMessages.cpp         |  2 +-
 app/commsdsl2c/src/CInterface.cpp             |  6 ++---
 app/commsdsl2c/src/CMessage.cpp               |  6 ++---
 app/commsdsl2c/src/CMsgHandler.cpp            |  6 ++---
 app/commsdsl2c/src/CMsgId.cpp                 |  2 +-
 app/commsdsl2c/src/CProtocolOptions.cpp       |  2 +-
 app/commsdsl2c/src/CVersion.cpp               |  4 ++--
 app/commsdsl2comms/src/CommsCmake.cpp         |  2 +-
 .../src/CommsDefaultOptions.cpp               |  2 +-
 app/commsdsl2comms/src/CommsDispatch.cpp      |  2 +-
 app/commsdsl2comms/src/CommsDoxygen.cpp       |  2 +-
 app/commsdsl2comms/src/CommsField.cpp         |  4 ++--
 app/commsdsl2comms/src/CommsFieldBase.cpp     |  2 +-
 app/commsdsl2comms/src/CommsFrame.cpp         |  6 ++---
 app/commsdsl2comms/src/CommsInputMessages.cpp |  2 +-
 app/commsdsl2comms/src/CommsInterface.cpp     |  4 ++--
 app/commsdsl2comms/src/CommsMessage.cpp       |  4 ++--
 app/commsdsl2comms/src/CommsMsgFactory.cpp    |  2 +-
 app/commsdsl2comms/src/CommsMsgId.cpp         |  2 +-
 app/commsdsl2comms/src/CommsVersion.cpp       |  2 +-
 .../src/EmscriptenCmake.cpp                   |  2 +-
 .../src/EmscriptenComms.cpp                   |  4 ++--
 .../src/EmscriptenDataBuf.cpp                 |  4 ++--
 .../src/EmscriptenField.cpp                   |  4 ++--
 .../src/EmscriptenFrame.cpp                   |  4 ++--
 .../src/EmscriptenInputMessages.cpp           |  4 ++--
 .../src/EmscriptenInterface.cpp               |  4 ++--
 .../src/EmscriptenMessage.cpp                 |  4 ++--
 .../src/EmscriptenMsgHandler.cpp              |  4 ++--
 .../src/EmscriptenMsgId.cpp                   |  2 +-
 .../src/EmscriptenProtocolOptions.cpp         |  2 +-
 .../src/EmscriptenVersion.cpp                 |  4 ++--
 app/commsdsl2latex/src/Latex.cpp              |  4 ++--
 app/commsdsl2latex/src/LatexCmake.cpp         |  2 +-
 app/commsdsl2latex/src/LatexField.cpp         |  2 +-
 app/commsdsl2latex/src/LatexFrame.cpp         |  2 +-
 app/commsdsl2latex/src/LatexMessage.cpp       |  2 +-
 app/commsdsl2latex/src/LatexNamespace.cpp     |  2 +-
 app/commsdsl2latex/src/LatexSchema.cpp        |  2 +-
 app/commsdsl2swig/src/Swig.cpp                |  2 +-
 app/commsdsl2swig/src/SwigCmake.cpp           |  2 +-
 app/commsdsl2swig/src/SwigComms.cpp           |  2 +-
 app/commsdsl2swig/src/SwigDataBuf.cpp         |  2 +-
 app/commsdsl2swig/src/SwigField.cpp           |  2 +-
 app/commsdsl2swig/src/SwigFrame.cpp           |  2 +-
 app/commsdsl2swig/src/SwigInterface.cpp       |  2 +-
 app/commsdsl2swig/src/SwigMessage.cpp         |  2 +-
 app/commsdsl2swig/src/SwigMsgHandler.cpp      |  2 +-
 app/commsdsl2swig/src/SwigMsgId.cpp           |  2 +-
 app/commsdsl2swig/src/SwigVersion.cpp         |  2 +-
 app/commsdsl2test/src/Test.cpp                |  2 +-
 app/commsdsl2test/src/TestCmake.cpp           |  2 +-
 app/commsdsl2tools_qt/src/ToolsQtCmake.cpp    |  2 +-
 .../src/ToolsQtDefaultOptions.cpp             |  2 +-
 app/commsdsl2tools_qt/src/ToolsQtFrame.cpp    | 10 ++++----
 .../src/ToolsQtInterface.cpp                  |  4 ++--
 app/commsdsl2tools_qt/src/ToolsQtMessage.cpp  |  4 ++--
 .../src/ToolsQtMsgFactory.cpp                 |  4 ++--
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp   | 24 +++++++++----------
 app/commsdsl2tools_qt/src/ToolsQtVersion.cpp  |  2 +-
 65 files changed, 110 insertions(+), 110 deletions(-)

diff --git a/app/commsdsl2c/src/CCmake.cpp b/app/commsdsl2c/src/CCmake.cpp
index 5875749..1e0a13b 100644
--- a/app/commsdsl2c/src/CCmake.cpp
+++ b/app/commsdsl2c/src/CCmake.cpp
@@ -226,7 +226,7 @@ bool CCmake::cWriteInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write " + filePath + ".");
         return false;
diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index 72dcfac..f095227 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -62,7 +62,7 @@ bool cWriteFileInternal(const std::string& name, const std::string& str, CGenera
     }
 
     stream << str;
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         generator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2c/src/CErrorStatus.cpp b/app/commsdsl2c/src/CErrorStatus.cpp
index 1816fa1..da0b836 100644
--- a/app/commsdsl2c/src/CErrorStatus.cpp
+++ b/app/commsdsl2c/src/CErrorStatus.cpp
@@ -122,7 +122,7 @@ bool CErrorStatus::cWriteHeaderInternal()
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -181,7 +181,7 @@ bool CErrorStatus::cWriteSourceInternal()
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..28f564c 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -602,7 +602,7 @@ bool CField::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -642,7 +642,7 @@ bool CField::cWriteSrcInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -679,7 +679,7 @@ bool CField::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2c/src/CFrame.cpp b/app/commsdsl2c/src/CFrame.cpp
index b1fc930..d7f0e5a 100644
--- a/app/commsdsl2c/src/CFrame.cpp
+++ b/app/commsdsl2c/src/CFrame.cpp
@@ -196,7 +196,7 @@ bool CFrame::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -238,7 +238,7 @@ bool CFrame::cWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -276,7 +276,7 @@ bool CFrame::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2c/src/CInputMessages.cpp b/app/commsdsl2c/src/CInputMessages.cpp
index b3fc816..f1a1936 100644
--- a/app/commsdsl2c/src/CInputMessages.cpp
+++ b/app/commsdsl2c/src/CInputMessages.cpp
@@ -102,7 +102,7 @@ bool CInputMessages::cWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..6149788 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -171,7 +171,7 @@ bool CInterface::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -213,7 +213,7 @@ bool CInterface::cWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -305,7 +305,7 @@ bool CInterface::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2c/src/CMessage.cpp b/app/commsdsl2c/src/CMessage.cpp
index b92d176..f0db00a 100644
--- a/app/commsdsl2c/src/CMessage.cpp
+++ b/app/commsdsl2c/src/CMessage.cpp
@@ -165,7 +165,7 @@ bool CMessage::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -207,7 +207,7 @@ bool CMessage::cWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -247,7 +247,7 @@ bool CMessage::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2c/src/CMsgHandler.cpp b/app/commsdsl2c/src/CMsgHandler.cpp
index 7cbd177..35072e0 100644
--- a/app/commsdsl2c/src/CMsgHandler.cpp
+++ b/app/commsdsl2c/src/CMsgHandler.cpp
@@ -132,7 +132,7 @@ bool CMsgHandler::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -174,7 +174,7 @@ bool CMsgHandler::cWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -226,7 +226,7 @@ bool CMsgHandler::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2c/src/CMsgId.cpp b/app/commsdsl2c/src/CMsgId.cpp
index 2fc3fae..e5655f2 100644
--- a/app/commsdsl2c/src/CMsgId.cpp
+++ b/app/commsdsl2c/src/CMsgId.cpp
@@ -92,7 +92,7 @@ bool CMsgId::cWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2c/src/CProtocolOptions.cpp b/app/commsdsl2c/src/CProtocolOptions.cpp
index bf1a914..bc9eb12 100644
--- a/app/commsdsl2c/src/CProtocolOptions.cpp
+++ b/app/commsdsl2c/src/CProtocolOptions.cpp
@@ -120,7 +120,7 @@ bool CProtocolOptions::cWriteHeaderInternal()
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2c/src/CVersion.cpp b/app/commsdsl2c/src/CVersion.cpp
index ba0b344..f54638a 100644
--- a/app/commsdsl2c/src/CVersion.cpp
+++ b/app/commsdsl2c/src/CVersion.cpp
@@ -74,7 +74,7 @@ bool CVersion::cWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
@@ -119,7 +119,7 @@ bool CVersion::cWriteCommsHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         m_cGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2comms/src/CommsCmake.cpp b/app/commsdsl2comms/src/CommsCmake.cpp
index 380a837..3523a10 100644
--- a/app/commsdsl2comms/src/CommsCmake.cpp
+++ b/app/commsdsl2comms/src/CommsCmake.cpp
@@ -139,7 +139,7 @@ bool CommsCmake::commsWriteInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_generator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index a713a34..c6c8306 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -103,7 +103,7 @@ bool commsWriteFileInternal(
     }
 
     stream << data;
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsDispatch.cpp b/app/commsdsl2comms/src/CommsDispatch.cpp
index eab8655..5b9d541 100644
--- a/app/commsdsl2comms/src/CommsDispatch.cpp
+++ b/app/commsdsl2comms/src/CommsDispatch.cpp
@@ -66,7 +66,7 @@ bool commsWriteFileInternal(
     }
 
     stream << data;
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index c881dd9..69598e7 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -60,7 +60,7 @@ bool commsWriteFileInternal(const std::string& name, const std::string& str, Com
     }
 
     stream << str;
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         generator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index f77fd96..3c9e938 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1223,7 +1223,7 @@ bool CommsField::commsWriteCommonInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -1268,7 +1268,7 @@ bool CommsField::commsWriteDefInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsFieldBase.cpp b/app/commsdsl2comms/src/CommsFieldBase.cpp
index 1f5c63a..7debc5c 100644
--- a/app/commsdsl2comms/src/CommsFieldBase.cpp
+++ b/app/commsdsl2comms/src/CommsFieldBase.cpp
@@ -96,7 +96,7 @@ bool CommsFieldBase::commsWriteInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         m_commsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2comms/src/CommsFrame.cpp b/app/commsdsl2comms/src/CommsFrame.cpp
index c843b7c..31d6bcb 100644
--- a/app/commsdsl2comms/src/CommsFrame.cpp
+++ b/app/commsdsl2comms/src/CommsFrame.cpp
@@ -192,7 +192,7 @@ bool CommsFrame::commsWriteCommonInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -220,7 +220,7 @@ bool CommsFrame::commsWriteDefInternal() const
     auto replaceCode = genGenerator().genReadCodeInjectCode(inputRelPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &codeReplaced);
     if (codeReplaced) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -305,7 +305,7 @@ bool CommsFrame::commsWriteDefInternal() const
     }
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsInputMessages.cpp b/app/commsdsl2comms/src/CommsInputMessages.cpp
index 7b0645b..782969f 100644
--- a/app/commsdsl2comms/src/CommsInputMessages.cpp
+++ b/app/commsdsl2comms/src/CommsInputMessages.cpp
@@ -148,7 +148,7 @@ bool writeFileInternal(
     }
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 7365a18..4e7f26b 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -268,7 +268,7 @@ bool CommsInterface::commsWriteCommonInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -294,7 +294,7 @@ bool CommsInterface::commsWriteDefInternal() const
             }
 
             stream << content;
-            stream.flush();
+            stream.close();
             return stream.good();
         };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 9e39ff4..73622a9 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -620,7 +620,7 @@ bool CommsMessage::commsWriteCommonInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -640,7 +640,7 @@ bool CommsMessage::commsWriteDefInternal() const
             }
 
             stream << content;
-            stream.flush();
+            stream.close();
             return stream.good();
         };
 
diff --git a/app/commsdsl2comms/src/CommsMsgFactory.cpp b/app/commsdsl2comms/src/CommsMsgFactory.cpp
index a8c14a5..81702ad 100644
--- a/app/commsdsl2comms/src/CommsMsgFactory.cpp
+++ b/app/commsdsl2comms/src/CommsMsgFactory.cpp
@@ -391,7 +391,7 @@ bool commsWriteFileInternal(
     }
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index 30b99f7..aa0d60a 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -87,7 +87,7 @@ bool CommsMsgId::commsWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_commsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2comms/src/CommsVersion.cpp b/app/commsdsl2comms/src/CommsVersion.cpp
index aaf55b6..0347959 100644
--- a/app/commsdsl2comms/src/CommsVersion.cpp
+++ b/app/commsdsl2comms/src/CommsVersion.cpp
@@ -90,7 +90,7 @@ bool CommsVersion::commsWriteInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         m_commsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
index 2cdccd5..159afaa 100644
--- a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
@@ -144,7 +144,7 @@ bool EmscriptenCmake::emscriptenWriteInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write " + filePath + ".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenComms.cpp b/app/commsdsl2emscripten/src/EmscriptenComms.cpp
index 78c36bc..f277c88 100644
--- a/app/commsdsl2emscripten/src/EmscriptenComms.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenComms.cpp
@@ -116,7 +116,7 @@ bool EmscriptenComms::emscriptenWriteErrorStatusInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -181,7 +181,7 @@ bool EmscriptenComms::emscriptenWriteOptionalModeInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenDataBuf.cpp b/app/commsdsl2emscripten/src/EmscriptenDataBuf.cpp
index 7406960..e247739 100644
--- a/app/commsdsl2emscripten/src/EmscriptenDataBuf.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenDataBuf.cpp
@@ -105,7 +105,7 @@ bool EmscriptenDataBuf::emscriptenWriteHeaderInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -159,7 +159,7 @@ bool EmscriptenDataBuf::emscriptenWriteSrcInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenField.cpp b/app/commsdsl2emscripten/src/EmscriptenField.cpp
index a170fcf..e1ab5b0 100644
--- a/app/commsdsl2emscripten/src/EmscriptenField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenField.cpp
@@ -472,7 +472,7 @@ bool EmscriptenField::emscriptenWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -510,7 +510,7 @@ bool EmscriptenField::emscriptenWriteSrcInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index a4ff0de..4ee41d9 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -170,7 +170,7 @@ bool EmscriptenFrame::emscriptenWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -213,7 +213,7 @@ bool EmscriptenFrame::emscriptenWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp b/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
index 987d7e3..327d6c5 100644
--- a/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
@@ -124,7 +124,7 @@ bool EmscriptenInputMessages::emscriptenWriteHeaderInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -175,7 +175,7 @@ bool EmscriptenInputMessages::emscriptenWriteHeaderFwdInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
index 2051a7c..bfbb1e8 100644
--- a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
@@ -113,7 +113,7 @@ bool EmscriptenInterface::emscriptenWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -157,7 +157,7 @@ bool EmscriptenInterface::emscriptenWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenMessage.cpp b/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
index 99295cd..ec73c73 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
@@ -125,7 +125,7 @@ bool EmscriptenMessage::emscriptenWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -164,7 +164,7 @@ bool EmscriptenMessage::emscriptenWriteSourceInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
index 32105a6..aacda84 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
@@ -117,7 +117,7 @@ bool EmscriptenMsgHandler::emscriptenWriteHeaderInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -176,7 +176,7 @@ bool EmscriptenMsgHandler::emscriptenWriteSrcInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp b/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
index 17fd9f4..75cff85 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
@@ -85,7 +85,7 @@ bool EmscriptenMsgId::emscriptenWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenProtocolOptions.cpp b/app/commsdsl2emscripten/src/EmscriptenProtocolOptions.cpp
index bbfaa5f..0c893e8 100644
--- a/app/commsdsl2emscripten/src/EmscriptenProtocolOptions.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenProtocolOptions.cpp
@@ -147,7 +147,7 @@ bool EmscriptenProtocolOptions::emscriptenWriteHeaderInternal()
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
index 74888f5..631146b 100644
--- a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
@@ -101,7 +101,7 @@ bool EmscriptenVersion::emscriptenWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -147,7 +147,7 @@ bool EmscriptenVersion::emscriptenWriteSrcInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_emscriptenGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/Latex.cpp b/app/commsdsl2latex/src/Latex.cpp
index bbce5d6..faad9d2 100644
--- a/app/commsdsl2latex/src/Latex.cpp
+++ b/app/commsdsl2latex/src/Latex.cpp
@@ -102,7 +102,7 @@ bool Latex::latexWriteInternal()
         stream << str;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -151,7 +151,7 @@ bool Latex::latexWriteCfgInternal()
         stream << str;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexCmake.cpp b/app/commsdsl2latex/src/LatexCmake.cpp
index d64025c..7f436a8 100644
--- a/app/commsdsl2latex/src/LatexCmake.cpp
+++ b/app/commsdsl2latex/src/LatexCmake.cpp
@@ -76,7 +76,7 @@ bool LatexCmake::latexWriteInternal()
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexField.cpp b/app/commsdsl2latex/src/LatexField.cpp
index bec5022..d5c1369 100644
--- a/app/commsdsl2latex/src/LatexField.cpp
+++ b/app/commsdsl2latex/src/LatexField.cpp
@@ -587,7 +587,7 @@ bool LatexField::latexWrite() const
         stream << util::genProcessTemplate(Templ, repl, true) << std::endl;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexFrame.cpp b/app/commsdsl2latex/src/LatexFrame.cpp
index d83529c..11cae9b 100644
--- a/app/commsdsl2latex/src/LatexFrame.cpp
+++ b/app/commsdsl2latex/src/LatexFrame.cpp
@@ -125,7 +125,7 @@ bool LatexFrame::genWriteImpl() const
         stream << util::genProcessTemplate(Templ, repl, true) << std::endl;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexMessage.cpp b/app/commsdsl2latex/src/LatexMessage.cpp
index 315e7c1..34f7055 100644
--- a/app/commsdsl2latex/src/LatexMessage.cpp
+++ b/app/commsdsl2latex/src/LatexMessage.cpp
@@ -153,7 +153,7 @@ bool LatexMessage::genWriteImpl() const
         stream << util::genProcessTemplate(Templ, repl, true) << std::endl;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexNamespace.cpp b/app/commsdsl2latex/src/LatexNamespace.cpp
index 5c87e9c..a73a04e 100644
--- a/app/commsdsl2latex/src/LatexNamespace.cpp
+++ b/app/commsdsl2latex/src/LatexNamespace.cpp
@@ -232,7 +232,7 @@ bool LatexNamespace::genWriteImpl() const
         stream << util::genProcessTemplate(Templ, repl, true) << std::endl;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2latex/src/LatexSchema.cpp b/app/commsdsl2latex/src/LatexSchema.cpp
index 9492c64..ee35767 100644
--- a/app/commsdsl2latex/src/LatexSchema.cpp
+++ b/app/commsdsl2latex/src/LatexSchema.cpp
@@ -138,7 +138,7 @@ bool LatexSchema::genWriteImpl()
         stream << util::genProcessTemplate(Templ, repl, true) << std::endl;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         latexGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/Swig.cpp b/app/commsdsl2swig/src/Swig.cpp
index 7242df2..e2ec4ef 100644
--- a/app/commsdsl2swig/src/Swig.cpp
+++ b/app/commsdsl2swig/src/Swig.cpp
@@ -89,7 +89,7 @@ bool Swig::swigWriteInternal()
         stream << str;
     } while (false);
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..d4b897e 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -130,7 +130,7 @@ bool SwigCmake::swigWriteInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write " + filePath + ".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigComms.cpp b/app/commsdsl2swig/src/SwigComms.cpp
index 5e74450..e9804dc 100644
--- a/app/commsdsl2swig/src/SwigComms.cpp
+++ b/app/commsdsl2swig/src/SwigComms.cpp
@@ -130,7 +130,7 @@ bool SwigComms::swigWriteInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigDataBuf.cpp b/app/commsdsl2swig/src/SwigDataBuf.cpp
index 95d7836..05bbdf5 100644
--- a/app/commsdsl2swig/src/SwigDataBuf.cpp
+++ b/app/commsdsl2swig/src/SwigDataBuf.cpp
@@ -113,7 +113,7 @@ bool SwigDataBuf::swigWriteInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigField.cpp b/app/commsdsl2swig/src/SwigField.cpp
index 50da816..1e2b29a 100644
--- a/app/commsdsl2swig/src/SwigField.cpp
+++ b/app/commsdsl2swig/src/SwigField.cpp
@@ -222,7 +222,7 @@ bool SwigField::swigWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 72fa084..f887162 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -156,7 +156,7 @@ bool SwigFrame::genWriteImpl() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2swig/src/SwigInterface.cpp b/app/commsdsl2swig/src/SwigInterface.cpp
index 2ab2451..79024ce 100644
--- a/app/commsdsl2swig/src/SwigInterface.cpp
+++ b/app/commsdsl2swig/src/SwigInterface.cpp
@@ -221,7 +221,7 @@ bool SwigInterface::genWriteImpl() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 180e8a0..f21263f 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -200,7 +200,7 @@ bool SwigMessage::genWriteImpl() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2swig/src/SwigMsgHandler.cpp b/app/commsdsl2swig/src/SwigMsgHandler.cpp
index 8b9343b..e7c771e 100644
--- a/app/commsdsl2swig/src/SwigMsgHandler.cpp
+++ b/app/commsdsl2swig/src/SwigMsgHandler.cpp
@@ -85,7 +85,7 @@ bool SwigMsgHandler::swigWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigMsgId.cpp b/app/commsdsl2swig/src/SwigMsgId.cpp
index 52b836d..9d43022 100644
--- a/app/commsdsl2swig/src/SwigMsgId.cpp
+++ b/app/commsdsl2swig/src/SwigMsgId.cpp
@@ -77,7 +77,7 @@ bool SwigMsgId::swigWrite() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2swig/src/SwigVersion.cpp b/app/commsdsl2swig/src/SwigVersion.cpp
index 77774fc..bdc8369 100644
--- a/app/commsdsl2swig/src/SwigVersion.cpp
+++ b/app/commsdsl2swig/src/SwigVersion.cpp
@@ -222,7 +222,7 @@ bool SwigVersion::swigWriteInternal() const
     }
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_swigGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2test/src/Test.cpp b/app/commsdsl2test/src/Test.cpp
index ca4593a..2b30764 100644
--- a/app/commsdsl2test/src/Test.cpp
+++ b/app/commsdsl2test/src/Test.cpp
@@ -447,7 +447,7 @@ bool Test::testWriteInputTest() const
     auto str = commsdsl::gen::util::genProcessTemplate(Template, repl, true);
     stream << str;
 
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_testGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index dda216a..c7cdf3b 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -212,7 +212,7 @@ bool TestCmake::testWriteInternal() const
 
     auto str = util::genProcessTemplate(Template, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_testGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtCmake.cpp b/app/commsdsl2tools_qt/src/ToolsQtCmake.cpp
index 83cacef..0827a61 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtCmake.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtCmake.cpp
@@ -172,7 +172,7 @@ bool ToolsQtCmake::toolsWriteInternal() const
 
     auto str = commsdsl::gen::util::genProcessTemplate(Template, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..1c298b8 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -204,7 +204,7 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
     }
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
index 7581734..fbb0500 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
@@ -194,7 +194,7 @@ bool ToolsQtFrame::toolsWriteProtTransportMsgHeaderInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -256,7 +256,7 @@ bool ToolsQtFrame::toolsWriteHeaderInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -334,7 +334,7 @@ bool ToolsQtFrame::toolsWriteSrcInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -389,7 +389,7 @@ bool ToolsQtFrame::toolsWriteTransportMsgHeaderInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -455,7 +455,7 @@ bool ToolsQtFrame::toolsWriteTransportMsgSrcInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp b/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
index 124885d..1d28b87 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
@@ -146,7 +146,7 @@ bool ToolsQtInterface::toolsWriteHeaderInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
@@ -191,7 +191,7 @@ bool ToolsQtInterface::toolsWriteSrcInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
     return stream.good();
 }
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
index 5684eb0..cb18084 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
@@ -136,7 +136,7 @@ bool ToolsQtMessage::toolsWriteHeaderInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -191,7 +191,7 @@ bool ToolsQtMessage::toolsWriteSrcInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
index 203e6c3..0e6e532 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
@@ -135,7 +135,7 @@ bool ToolsQtMsgFactory::toolsWriteHeaderInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
@@ -197,7 +197,7 @@ bool ToolsQtMsgFactory::toolsWriteSourceInternal() const
         };
 
         stream << util::genProcessTemplate(Templ, repl, true);
-        stream.flush();
+        stream.close();
         if (!stream.good()) {
             logger.genError("Write to \"" + filePath + "\" is unsuccessful.");
             return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index d0cef92..32ef2a9 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -102,7 +102,7 @@ bool ToolsQtPlugin::toolsWriteProtocolHeaderInternal()
     auto replaceCode = m_toolsGenerator.genReadCodeInjectCode(relPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &hasReplace);
     if (hasReplace) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -153,7 +153,7 @@ bool ToolsQtPlugin::toolsWriteProtocolHeaderInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -179,7 +179,7 @@ bool ToolsQtPlugin::toolsWriteProtocolSrcInternal()
     auto replaceCode = m_toolsGenerator.genReadCodeInjectCode(relPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &hasReplace);
     if (hasReplace) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -240,7 +240,7 @@ bool ToolsQtPlugin::toolsWriteProtocolSrcInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -266,7 +266,7 @@ bool ToolsQtPlugin::toolsWritePluginHeaderInternal()
     auto replaceCode = m_toolsGenerator.genReadCodeInjectCode(relPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &hasReplace);
     if (hasReplace) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -325,7 +325,7 @@ bool ToolsQtPlugin::toolsWritePluginHeaderInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -351,7 +351,7 @@ bool ToolsQtPlugin::toolsWritePluginSrcInternal()
     auto replaceCode = m_toolsGenerator.genReadCodeInjectCode(relPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &hasReplace);
     if (hasReplace) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -401,7 +401,7 @@ bool ToolsQtPlugin::toolsWritePluginSrcInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -427,7 +427,7 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
     auto replaceCode = util::genReadFileContents(replaceFilePath);
     if (!replaceCode.empty()) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -466,7 +466,7 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
@@ -492,7 +492,7 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
     auto replaceCode = util::genReadFileContents(replaceFilePath);
     if (!replaceCode.empty()) {
         stream << replaceCode;
-        stream.flush();
+        stream.close();
         return stream.good();
     }
 
@@ -510,7 +510,7 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
     stream << str;
-    stream.flush();
+    stream.close();
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
         return false;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtVersion.cpp b/app/commsdsl2tools_qt/src/ToolsQtVersion.cpp
index 5c18446..0bb5b5f 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtVersion.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtVersion.cpp
@@ -85,7 +85,7 @@ bool ToolsQtVersion::toolsWriteInternal() const
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
-    stream.flush();
+    stream.close();
 
     if (!stream.good()) {
         m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
-- 
2.43.0


From 1382e0c4fe7cd79a74ec729c7d70c8074c2d9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 94/96] fix: Report failure to write a copied file with updated
 namespace

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index f946b3d..3b92d7f 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1725,6 +1725,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.close();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to write " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From 24c97a6cbbcdd2eab649d0183dfce0e976512675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:48 +0000
Subject: [PATCH 95/96] fix: Report failure to open an existing custom code
 file

---
 lib/src/gen/util.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0e93ad5..9c3945f 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -22,11 +22,13 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <iterator>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 
 namespace commsdsl
 {
@@ -764,6 +766,12 @@ std::string genReadFileContents(const std::string& filePath)
     std::ifstream stream(filePath);
     if (stream) {
         result.assign(std::istreambuf_iterator<char>(stream), (std::istreambuf_iterator<char>()));
+        return result;
+    }
+
+    std::error_code ec;
+    if (std::filesystem::exists(filePath, ec)) {
+        throw std::runtime_error("Failed to read \"" + filePath + "\".");
     }
 
     return result;
-- 
2.43.0


From 8ab42a7e4d562f2e0e7fdd153b832901e1c54c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:32 +0000
Subject: [PATCH 96/96] fix: Read replacing code of the plugin files only from
 the custom code directory

---
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index 32ef2a9..12dc369 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -423,8 +423,12 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
         return false;
     }
 
-    auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    std::string replaceCode;
+    if (!m_toolsGenerator.genGetCodeDir().empty()) {
+        auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
+        replaceCode = util::genReadFileContents(replaceFilePath);
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.close();
@@ -488,8 +492,12 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
         return false;
     }
 
-    auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    std::string replaceCode;
+    if (!m_toolsGenerator.genGetCodeDir().empty()) {
+        auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
+        replaceCode = util::genReadFileContents(replaceFilePath);
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.close();
-- 
2.43.0

