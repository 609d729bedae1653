From 3f73f4ecd531cb562da1e579dcdb80be42b2b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 01/31] fix: split unquoted classifier keys on blanks when
 parsing (XTokenHelper)

extract_tokens only split on quotes, so the keys of a classifier with several
keys without blanks came back as one single key.
---
 src/opyenxes/utils/XTokenHelper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..843d422 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -2,8 +2,13 @@ class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
-        return list(filter(lambda key: key != '', keys))
+        keys = list()
+        for i, part in enumerate(token_string.split("'")):
+            if i % 2 == 1:
+                keys.append(part)
+            else:
+                keys.extend(part.split(" "))
+        return list(filter(lambda key: key.strip() != '', keys))
 
     @staticmethod
     def format_token(token):
-- 
2.43.0


From e1f1ca2ea8092e3b7fb499d7efeb8d3cd9c6af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 02/31] fix: an unparseable date no longer unbalances the XES
 parser's stacks

startElement returned without pushing while endElement popped, so the
enclosing attribute or event was lost.
---
 src/opyenxes/data_in/XesXmlParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..bf32b9a 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -7,6 +7,7 @@ from opyenxes.classification.XEventAttributeClassifier import XEventAttributeCla
 from opyenxes.utils.XsDateTimeConversion import parse_date_time
 from opyenxes.utils.XTokenHelper import XTokenHelper
 from opyenxes.id.XID import XID
+from opyenxes.model.XAttributable import XAttributable
 from opyenxes.model.XAttributeCollection import XAttributeCollection
 
 
@@ -170,6 +171,9 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        # keep both stacks balanced: endElement drops this entry
+                        self.__attribute_stack.append(None)
+                        self.__attributable_stack.append(XAttributable())
                         return
                     attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -225,6 +229,8 @@ class XesXmlParser:
             else:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
+                if i is None:
+                    return
 
                 if self.__globals is not None:
 
-- 
2.43.0


From d98b9291e22729db9b089bfa07c10d7d4b64d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 03/31] fix: keep nested attributes of global attributes nested
 when parsing XES

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index bf32b9a..8253789 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -232,7 +232,7 @@ class XesXmlParser:
                 if i is None:
                     return
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 9bb1f2b5c86dc360d721cb155111a51bdb156558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 04/31] fix: an unknown extension without uri no longer aborts
 XES parsing

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 8253789..4a12181 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -131,7 +131,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: " + str(keys))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From 301fa1931b807d279bba1d54716cc8e1edf14b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 05/31] fix: ends_with_ignore_case really ignores the case of
 file names

---
 src/opyenxes/data_in/XMxmlParser.py  | 5 +----
 src/opyenxes/data_in/XesXmlParser.py | 6 +-----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..561692b 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -68,10 +68,7 @@ class XMxmlParser:
         :return: Whether the given file name ends (ignoring the case) with the given suffix.
         :rtype: bool
         """
-        i = len(name) - len(suffix)
-        if i > 0:
-            return suffix in name[i:]
-        return False
+        return name.lower().endswith(suffix.lower())
 
     class MxmlHandler(ContentHandler):
         """SAX handler class for XES in XML representation.
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 4a12181..8eec12a 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -62,11 +62,7 @@ class XesXmlParser:
         :return: Whether the given file name ends (ignoring the case) with the given suffix.
         :rtype: bool
         """
-        i = len(name) - len(suffix)
-
-        if i > 0:
-            return suffix in name[i:]
-        return False
+        return name.lower().endswith(suffix.lower())
 
     class XesXmlHandler(ContentHandler):
         """SAX handler class for XES in XML representation.
-- 
2.43.0


From 91c0e0ecaf6af389dbf9e66e19907550c55eb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 06/31] fix: an out-of-range zone offset is an invalid
 timestamp, not a crash

---
 src/opyenxes/utils/XsDateTimeConversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..2750339 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -42,6 +42,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From f643081822e522ec88f5682787cfdd59e5586775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 07/31] fix: derive_prototype works for timestamp attributes

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 40d20b994329ecc4ba72e76ca5d06e060d7685e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 08/31] fix: clones of attributes and attribute maps are deep

Nested attributes were dropped, attribute maps shared their attributes with
the clone, and list and container attributes could not be cloned at all.
---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 12 ++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 8 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..00dab70 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,18 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = self.__class__(self.get_key(), self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
+        for attribute in self.__collection:
+            clone.add_to_collection(attribute.clone())
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
-- 
2.43.0


From 6acde3dd051ada459f943f33a63ab8861c6fdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 09/31] fix: hash a trace by its events, so that equal lookups
 find it

The hash of a fresh super object changed from call to call.
---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From ca4fec8c09eeaeb7085e6dbb24d663b710da1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 10/31] fix: attribute info records prototypes per type and per
 extension

---
 src/opyenxes/info/XAttributeInfo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..e73b50e 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -155,6 +155,11 @@ class XAttributeInfo:
             if type_set is None:
                 type_set = set()
             self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            type_set.add(prototype)
+            if attribute.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(attribute.get_extension(), set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From cb6aad47a1d41767425172378264335d0f5d8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 11/31] fix: get_extensions returns the extensions of an
 element's attributes

---
 src/opyenxes/model/XAttributable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..9084a04 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,8 +24,8 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
+            extension = attribute.get_extension()
+            if extension is not None:
                 extensions.add(extension)
         return extensions
 
-- 
2.43.0


From 6a014ff741777c067a413e73304486cfb4064df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 12/31] fix: assign_instance stores the instance, not the name,
 of an event

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From cc1c2ba18d7765797934d0a6a664ab8cbe731120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 13/31] fix: cost currency, type and types are stored where
 they are read from

---
 src/opyenxes/extension/std/XCostExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..e911da3 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
@@ -491,7 +491,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param types: Dictionary with keys to cost types which are to be assigned.
         :type types: dict(list[str]: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From 95569bd00b792364c7f4092623eca5e1751168b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 14/31] fix: micro extension: assign and extract parent ids,
 report a missing length as -1

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From 20c398191f4922c90e629ff5fdf35c31c100e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 15/31] fix: nested values are keyed by the tuple of keys that
 leads to them

Lists cannot be dictionary keys, and the path repeated the parent key
instead of adding the key of the child.
---
 .../extension/std/XAbstractNestedAttributeSupport.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..b7772bb 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -111,12 +111,12 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
-            nested_values[keys] = value
+        if value is not None:
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -149,7 +149,7 @@ class XAbstractNestedAttributeSupport:
         for key in values.keys():
             keys = list()
             keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[tuple(keys)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
-- 
2.43.0


From 3be8f1a415139bd6439782e0cc6604821a5c89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 16/31] fix: model references are split on white space and keep
 their case

---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..319033b 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,11 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
+            ref_string = model_reference_attribute.get_value().strip()
+            aux = ref_string.split()
             for i in range(len(aux)):
                 reference = aux[i]
-                model_references.append(reference.lower())
+                model_references.append(reference)
 
         return model_references
 
-- 
2.43.0


From 97652c2bbda1c23b4219473ef5f18dc6273e7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 17/31] fix: the extended event view keeps the case of
 resource, role and group

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..fa483fc 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource.strip())
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role.strip())
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group.strip())
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 472c8c4ef590b294a3d85cd414e0e6bc3ed69115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 18/31] fix: assigning a datetime keeps its time zone and its
 fraction of a second

---
 src/opyenxes/extension/std/XTimeExtension.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..beec0c9 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From a9843878468686ff6b50435b28d856d23fd170bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 19/31] fix: map_safely falls back to the standard mapping for
 an unknown mapping name

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..4f7bde3 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From 4c7f99f0c215a7c5fb452c3ab6d88fd5be54bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 20/31] fix: a missing attribute keeps its place in a class
 identity of three or more keys

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..4d73e00 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -48,6 +48,8 @@ class XEventAttributeClassifier:
                 attribute = event.get_attributes().get(key)
                 if attribute:
                     identity.append(str(attribute))
+                else:
+                    identity.append("")
 
             return "&&".join(identity)
 
-- 
2.43.0


From cdd3bf5dcc1635a98780aef3010154f346eadc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 21/31] fix: a registered extension overrides the one with the
 same uri for every lookup

---
 src/opyenxes/extension/XExtensionManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..38126af 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -43,6 +43,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From bc12bf4916a62afdb506deb2a9118b8f949bc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 22/31] fix: create_event honours the identity of an event
 without attributes

---
 src/opyenxes/factory/XFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..1b22f45 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -61,7 +61,7 @@ class XFactory:
         if attribute:
             return XEvent(attribute)
 
-        return XEvent()
+        return XEvent(identity=identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From 723842e9d942a217eb9552a9603b140a3f9ebdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 23/31] fix: extension attributes are added to the level that
 encloses them

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..ec1fd58 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -65,6 +65,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                     return
 
                 self.__extension = XExtension(mapping, name, x_uri)
+                self.__xAttributes = self.__extension.get_log_attributes()
 
             elif tag_name.lower() == "log":
                 self.__xAttributes = self.__extension.get_log_attributes()
@@ -76,37 +77,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From 6e25c302d2d9ad441b23403f36c9d69a908626b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 24/31] fix: line breaks and tabs in attribute values survive
 serialization

minidom wrote them unescaped, so every XML parser reads them back as blanks.
---
 src/opyenxes/data_out/XMxmlSerializer.py  | 24 +++++++++----------
 src/opyenxes/data_out/XesXmlSerializer.py | 29 ++++++++++-------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..d1688b3 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
@@ -118,19 +117,20 @@ class XMxmlSerializer:
                     date = timestamp_attr_1.get_value()
                     timestamp.text = str(date)
 
-        text = minidom.parseString(Et.tostring(root, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the legacy MXML standard for log storage and management.")
-        c3 = text.createComment("OpenXES library version: 1.0RC7")
-        c4 = text.createComment("OpenXES is available from http://www.xes-standard.org/")
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
+        # attribute values keep their line breaks and tabs (minidom would not escape them)
+        Et.indent(root, "\t")
+        text = ['<?xml version="1.0" ?>']
+        text.append("<!--" + "This file has been generated with the OpenXES library. It conforms" + "-->")
+        text.append("<!--" + "to the legacy MXML standard for log storage and management." + "-->")
+        text.append("<!--" + "OpenXES library version: 1.0RC7" + "-->")
+        text.append("<!--" + "OpenXES is available from http://www.xes-standard.org/" + "-->")
+        text.append(Et.tostring(root, "unicode"))
+        text = "\n".join(text) + "\n"
+
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..8e335fe 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
 from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
 from opyenxes.model.XAttributeLiteral import XAttributeLiteral
@@ -80,24 +79,22 @@ class XesXmlSerializer:
                 event_xml = Et.SubElement(trace_xml, "event")
                 self.add_attributes(event_xml, event.get_attributes().values())
 
-        text = minidom.parseString(Et.tostring(log_xml, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the XML serialization of the XES standard for log storage and")
-        c3 = text.createComment("management.")
-        c4 = text.createComment("XES standard version: 1.0")
-        c5 = text.createComment("OpenXES library version: 1.0RC7")
-        c6 = text.createComment("OpenXES is available from http://www.openxes.org/")
-        text.insertBefore(c6, text.childNodes[0])
-        text.insertBefore(c5, text.childNodes[0])
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
+        # attribute values keep their line breaks and tabs (minidom would not escape them)
+        Et.indent(log_xml, "\t")
+        text = ['<?xml version="1.0" ?>']
+        text.append("<!--" + "This file has been generated with the OpenXES library. It conforms" + "-->")
+        text.append("<!--" + "to the XML serialization of the XES standard for log storage and" + "-->")
+        text.append("<!--" + "management." + "-->")
+        text.append("<!--" + "XES standard version: 1.0" + "-->")
+        text.append("<!--" + "OpenXES library version: 1.0RC7" + "-->")
+        text.append("<!--" + "OpenXES is available from http://www.openxes.org/" + "-->")
+        text.append(Et.tostring(log_xml, "unicode"))
+        text = "\n".join(text) + "\n"
 
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From a7103a29d1c5cd6750578d4b8565320a62ba2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 25/31] fix: write the offset of a timestamp, not the name of
 its time zone

A named zone such as CET was written in a form the parser cannot read.
---
 src/opyenxes/model/XAttributeTimestamp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..894a048 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,5 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
+from datetime import datetime, timedelta
 import platform
 import time
 
@@ -96,7 +96,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            self.__zone())
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
@@ -131,3 +131,10 @@ class XAttributeTimestamp(XAttribute):
         if (platform.system() == 'Windows') and (value < 86400):
             return 86400
         return value
+
+    def __zone(self):
+        minutes = self.__value.utcoffset() // timedelta(minutes=1)
+        if minutes == 0:
+            return "Z"
+        sign = "-" if minutes < 0 else "+"
+        return "{}{:02}:{:02}".format(sign, abs(minutes) // 60, abs(minutes) % 60)
-- 
2.43.0


From 1a5ecf1c5dedd3c64315f2893b854b9d8558443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 26/31] fix: MXML data of a log or trace that is still empty
 stays on that log or trace

Empty logs and traces are falsy, and the end of Source was never noticed.
---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 561692b..60c8c2d 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -197,7 +197,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -228,9 +228,9 @@ class XMxmlParser:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
                         if self.__entry:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From 5f23f6e6d5a1992131adf6900de635370b4a541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 27/31] fix: MXML originators, timestamps and unknown event
 types can be read back

They were written under names, or in a format, that the MXML parser ignores.
---
 src/opyenxes/data_in/XMxmlParser.py      | 2 +-
 src/opyenxes/data_out/XMxmlSerializer.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 60c8c2d..a1d75f6 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -161,7 +161,7 @@ class XMxmlParser:
 
                 elif tag_name == "EventType":
                     self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
-                    unknown_type = attributes.get("unknowntype")
+                    unknown_type = attributes.get("unknownType")
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index d1688b3..4286500 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -106,16 +106,15 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         # attribute values keep their line breaks and tabs (minidom would not escape them)
         Et.indent(root, "\t")
-- 
2.43.0


From 4092b07cf1972673a7937d340a2e05b759c88d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 28/31] fix: write the data attributes of an MXML element

Only the model reference, which has its own place, was written as data.
---
 src/opyenxes/data_out/XMxmlSerializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 4286500..64a3791 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -151,8 +151,8 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+            if attribute.get_key() != "semantic:modelReference":
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
@@ -169,7 +169,7 @@ class XMxmlSerializer:
                     if len(sub_key_prefix) > 0:
                         sub_key_prefix = key_prefix + ":" + sub_key_prefix
 
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From 5e6ef535957becb8545991dc253dd37a06f37bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:44 +0000
Subject: [PATCH 29/31] fix: get_value_millis respects the time zone and the
 fraction of a second

---
 src/opyenxes/model/XAttributeTimestamp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 894a048..751f0a4 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,6 @@
 from opyenxes.model.XAttribute import XAttribute
 from datetime import datetime, timedelta
 import platform
-import time
 
 
 class XAttributeTimestamp(XAttribute):
@@ -33,7 +32,7 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        return self.__value.timestamp() * 1000
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
-- 
2.43.0


From 7cf43748eb23f9f99fa165e12b5a1f352d9e8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:12 +0000
Subject: [PATCH 30/31] fix: give every log of an MXML document its own source
 attribute

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index a1d75f6..3923197 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -125,7 +125,7 @@ class XMxmlParser:
                     self.__currentProcess.get_extensions().add(XSemanticExtension())
                     self.__currentProcess.get_extensions().add(XTimeExtension())
                     if self.__sourceAttribute:
-                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute
+                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute.clone()
 
                     XConceptExtension().assign_name(self.__currentProcess, description_string)
                     XLifecycleExtension().assign_model(self.__currentProcess, "standard")
-- 
2.43.0


From c8754479bf10fa02829f8c230bd2d149f5761f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 31/31] fix: timestamps given in milliseconds keep their exact
 value and instant in every local zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 25 ++++++++---------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 751f0a4..6939939 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,6 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime, timedelta
-import platform
+from datetime import datetime, timedelta, timezone
 
 
 class XAttributeTimestamp(XAttribute):
@@ -14,6 +13,8 @@ class XAttributeTimestamp(XAttribute):
      the attribute is not associated to an extension)
     :type extension: `XExtension` or None
     """
+    __EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
     def __init__(self, key, value, extension=None):
         super().__init__(key, extension)
         self.__relative_zone = ""
@@ -21,7 +22,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -32,7 +33,10 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return self.__value.timestamp() * 1000
+        value = self.__value
+        if value.tzinfo is None:
+            value = value.astimezone()
+        return (value - self.__EPOCH) / timedelta(milliseconds=1)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -43,7 +47,7 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        self.__value = self.__EPOCH + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -120,17 +124,6 @@ class XAttributeTimestamp(XAttribute):
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
 
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-
     def __zone(self):
         minutes = self.__value.utcoffset() // timedelta(minutes=1)
         if minutes == 0:
-- 
2.43.0

