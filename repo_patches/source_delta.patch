From cea7a608b94db2506c22ba879db77e1d3728eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/52] fix: DirEntry.modify_time setter packed into a
 temporary copy

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..5d34889 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -635,7 +635,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From 56df7b218e259c52e4325e4e2ac3d6a457f947a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 02/52] fix: terminate the DIFAT chain when a DIFAT sector is
 added

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 5d34889..a592693 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1637,7 +1637,7 @@ class CompoundFileBinary(object):
             for i in range(self.sector_size // 4):
                 difat.append(FREESECT)
 
-            difat[-1] == ENDOFCHAIN
+            difat[-1] = ENDOFCHAIN
             self.difat.append(difat)
 
             for t, i, v in self.iter_difat():
-- 
2.43.0


From 644dbdc802b5d77e8fa5beb849afb57cbb34eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 03/52] fix: refuse to move a storage into its own descendant

---
 src/aaf2/cfb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a592693..a08ac98 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2127,6 +2127,12 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        parent = dst_entry
+        while parent is not None:
+            if parent is src_entry:
+                raise ValueError("cannot move %s inside itself: %s" % (src, dst))
+            parent = parent.parent
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From b238cb56884c4e6cfe90ba21873b9a0ebb597259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 04/52] fix: create_timeline_slot picked an id already in use
 when ids had a gap

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From f3a425e0341c6340cafbec591d6c152c5c9309a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 05/52] fix: length of a slot holding a NestedScope was always
 0

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From 77766b1196419244063ce36fb26872ea2e5a27d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 06/52] fix: keyframe earlier than the first one was inserted
 after it

---
 src/aaf2/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..d057e9f 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -242,6 +242,9 @@ class VaryingValue(Parameter):
             nearest = pointlist[index]
             if float(nearest.time) == float(time):
                 pointlist[index] = cp
+            elif nearest.time > time:
+                # earlier than the first keyframe
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0


From 5f30daad5b81d9973db5f2dd9236a932cbc6e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 07/52] fix: Sequence.index_at_time returned the previous
 component at a cut

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..dc977e0 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
-- 
2.43.0


From cbe485fbcb4d5a29fa665fdc264e1228feee1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 08/52] fix: fixed arrays were padded with one element too many

---
 src/aaf2/types.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..0eb11fc 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -367,16 +367,17 @@ class TypeDefFixedArray(TypeDef):
         byte_size = element_typedef.byte_size
         element_count = self.size
         result = b""
+        count = 0
 
-        for i, item in enumerate(data):
-            if i >= element_count:
+        for item in data:
+            if count >= element_count:
                 raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
-                break
             result += element_typedef.encode(item)
+            count += 1
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
+        if count < element_count:
+            bytes_left = (element_count - count) * byte_size
             while bytes_left:
                 result += b'\0'
                 bytes_left -= 1
-- 
2.43.0


From 1ce2b285e2e5323e91fbfcba0dbede5410d53163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 09/52] fix: floats beyond int32 lost their sign or got a zero
 denominator

---
 src/aaf2/rational.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index d5357de..2c8c69f 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -38,8 +38,9 @@ class AAFRational(Fraction):
                 # make sure fraction can fit in a int32
                 value = value.limit_denominator(0x7FFFFFFF)
                 if value._numerator > 0x7FFFFFFF or value._numerator < -0x7FFFFFFF:
-                    value._denominator = int(value._denominator * (0x7FFFFFFF / float(value._numerator)))
-                    value._numerator = 0x7FFFFFFF
+                    limit = 0x7FFFFFFF if value._numerator > 0 else -0x7FFFFFFF
+                    value._denominator = max(1, int(value._denominator * (limit / float(value._numerator))))
+                    value._numerator = limit
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
-- 
2.43.0


From 67f16900f162b91f6484c50880934051d7ceeec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 10/52] fix: dependant_mobs never ended on cyclic mob
 references

---
 src/aaf2/mobs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..ef1cf46 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -154,23 +154,27 @@ class Mob(core.AAFObject):
         """
 
         visited = set()
+        in_progress = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
+            in_progress.add(mob.mob_id)
 
             for obj, _ in mob.walk_references(topdown=True):
                 if isinstance(obj, SourceReference):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    # references back to a mob being processed are cycles
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in in_progress:
                         stack.append(ref_mob)
                         children_processed = False
 
             if children_processed:
                 stack.pop(-1)
+                in_progress.discard(mob.mob_id)
                 if mob.mob_id not in visited:
                     visited.add(mob.mob_id)
                     if mob is not self:
-- 
2.43.0


From d431796220658f51467bd5eb6ba3f08367dabd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 11/52] fix: copying a weak reference stored the wrong key pid

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..8206743 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1010,7 +1010,7 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-- 
2.43.0


From 3ee64f2c538440cce9c1c2869527ceffd20d4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 12/52] fix: copying a weak reference to a class definition
 fell through to a plain copy

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 8206743..19cdec4 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1022,7 +1022,7 @@ class WeakRefProperty(Property):
                 v = self.value
                 if self.ref_classdef.auid == CLASSDEF_AUID:
                     parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
+                elif self.ref_classdef.auid == TYPEDEF_AUID:
                     parent.root.metadict.register_external_typedef(v)
                 else:
                     c = v.copy(root=parent.root, classdef_cache=cache)
-- 
2.43.0


From fe5c92d4b437f3c54bcdfb5e0f416cb9cef34ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 13/52] fix: copying a set type definition passed the type
 instead of its id

---
 src/aaf2/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 0eb11fc..bc97660 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -479,7 +479,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
-- 
2.43.0


From 9fa86cd476d9f6f43e8b6b9dd7dafc4d9f122b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/52] fix: type definitions copied to another file lost their
 names

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index bc97660..1befcfc 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -399,7 +399,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -479,7 +479,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -541,7 +541,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -595,7 +595,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -753,7 +753,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -803,7 +803,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
 
@@ -931,7 +931,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From 7ae2825bc7eadedac3802be55c5c1e2ef2b01526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 15/52] fix: registering a known class id under a new name
 raised KeyError

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..11098fe 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -412,7 +412,7 @@ class MetaDictionary(core.AAFObject):
         if name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
         elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
+            c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
-- 
2.43.0


From 848ca74e8cb7aad12b4d92dca788904222adb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 16/52] fix: Dictionary.update could not add parameters to an
 operation

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From dca5c5c54b409c15f214799231837fd653e5be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 17/52] fix: enum elements registered on a type read from a
 file were not saved

---
 src/aaf2/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 1befcfc..990edca 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,7 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        self.property_entries[PID_ENUM_VALUES].mark_modified()
 
     def decode(self, data):
 
@@ -823,6 +824,7 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        self.property_entries[PID_EXTENUM_VALUES].mark_modified()
 
     @property
     def elements(self):
-- 
2.43.0


From 20814ace665930dd21142e7a45fa3baf94c0116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 18/52] fix: StrongRefVectorProperty.insert followed by wrong
 index or on an absent property

---
 src/aaf2/properties.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 19cdec4..188372d 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -604,24 +604,37 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        index_name = self.index_name # sets self.data
         assert self.ref_classdef.isinstance(value.classdef)
 
+        if value.root is not self.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
+        # same index rules as list.insert
+        if index < 0:
+            index = max(0, len(self.references) + index)
+        index = min(index, len(self.references))
+
         self.references.insert(index, self.next_free_key)
 
         objects = {}
         objects[index] = value
         # increment all cached object with > indices +1
-        for key, value in self.objects.items():
+        for key, item in self.objects.items():
             if key >= index:
-                objects[key+1] = value
+                objects[key+1] = item
             else:
-                objects[key] = value
+                objects[key] = item
 
         self.next_free_key += 1
         if self.attached:
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
-- 
2.43.0


From a13cf3fd5261513bc138984262a9ebfb4c1f9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 19/52] fix: extend() of reference collections lost the items
 of a generator

---
 src/aaf2/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 188372d..ba6dcf0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -641,6 +641,7 @@ class StrongRefVectorProperty(Property):
     def extend(self, value):
         index_name = self.index_name # sets self.data
         ref_classdef = self.ref_classdef
+        value = list(value) # iterated twice
 
         for obj in value:
             assert ref_classdef.isinstance(obj.classdef)
@@ -882,6 +883,7 @@ class StrongRefSetProperty(Property):
     def extend(self, values):
         typedef = self.typedef
         classdef = typedef.ref_classdef
+        values = list(values) # iterated twice
 
         # check values are the correct type
         for item in values:
@@ -1222,6 +1224,7 @@ class WeakRefArrayProperty(Property):
     @writeonly
     def extend(self, values):
         ref_classdef = self.ref_classdef
+        values = list(values) # iterated twice
 
         # check values are the correct type
         for item in values:
-- 
2.43.0


From acf538f2fb550534bd28237b7f8c39986108c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 20/52] fix: entries read during a tree rebalance lost their
 parent

---
 src/aaf2/cfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a08ac98..a2cd4b2 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -755,6 +755,7 @@ class DirEntry(object):
         max_dirs_entries = self.storage.dir_sector_count * dir_per_sector
 
         head = DirEntry(self.storage, None) # False tree root
+        head.parent = self # entries read through head belong to this folder
         head.red = True
         entry.red = True
 
@@ -867,6 +868,7 @@ class DirEntry(object):
         count = 0
 
         head = DirEntry(self.storage, None) # False tree root
+        head.parent = self.parent # entries read through head belong to this folder
         head.red = True
         head.name = "" # NOTE: any name will be less then this
         node = head
-- 
2.43.0


From 669b1ac13186973eb7d7b90ed3ff72d3e00386b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 21/52] fix: text arrays could not be encoded in files created
 by aaf2

---
 src/aaf2/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 990edca..255a62b 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -450,7 +450,8 @@ class TypeDefVarArray(TypeDef):
 
         element_typedef = self.element_typedef
 
-        if element_typedef.type_name == "Character":
+        #aafCharacter
+        if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
-- 
2.43.0


From 8434ac84bea956d013c461e47d7924026542c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 22/52] fix: arrays and records of renamed or extensible enum
 types could not be decoded

---
 src/aaf2/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 255a62b..a494130 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -762,6 +762,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
@@ -807,6 +811,10 @@ class TypeDefExtEnum(TypeDef):
     def copy(self, root=None):
         return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
+    @property
+    def byte_size(self):
+        return 16
+
     def register_element(self, element_name, element_auid):
 
         element_names = []
-- 
2.43.0


From a3d17ff448537bb612f7aa09cfb46b2b49f2f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 23/52] fix: create_timeline_slot reused an id after repeated
 slot ids

---
 src/aaf2/mobs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ef1cf46..6be689a 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -90,14 +90,14 @@ class Mob(core.AAFObject):
         slots = [slot.slot_id for slot in self.slots]
         slots.sort()
         if slot_id is None:
-            start = 1
+            slot_id = 1
             if slots and slots[0] == 0:
-                start = 0
+                slot_id = 0
 
-            for i, e in enumerate(slots + [None], start):
-                if i != e:
-                    slot_id = i
-                    break
+            # first gap, slot ids of existing files can be repeated
+            for e in slots:
+                if e == slot_id:
+                    slot_id += 1
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 71b5144be8ff6af16a9a588c75d45cab2fe5f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 24/52] fix: creating an object while the arguments of another
 creation are evaluated made objects of the wrong class

---
 src/aaf2/file.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..d3a656f 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -32,11 +32,12 @@ class AAFFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        def create_instance(*args, **kwargs):
+            return self.from_name(name, *args, **kwargs)
+
+        return create_instance
 
     def from_name(self, name, *args, **kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
@@ -59,9 +60,6 @@ class AAFFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 class AAFObjectManager(object):
 
     def __init__(self, root):
-- 
2.43.0


From 74db069179ad7994c36d42c0d81ffd2653b34c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 25/52] fix: create.<Class>(name=...) failed because the
 argument was taken for the class name

---
 src/aaf2/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index d3a656f..52e3afa 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -35,11 +35,14 @@ class AAFFactory(object):
 
     def __getattr__(self, name):
         def create_instance(*args, **kwargs):
-            return self.from_name(name, *args, **kwargs)
+            return self.create_instance(name, args, kwargs)
 
         return create_instance
 
     def from_name(self, name, *args, **kwargs):
+        return self.create_instance(name, args, kwargs)
+
+    def create_instance(self, name, args, kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
         if classdef is None:
             raise ValueError("no class found with name: %s" % name)
-- 
2.43.0


From 28617c886eb34ab50c97823f5b8c9b77f08ff78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 26/52] fix: next_free_pid returned an id below the dynamic
 range when it ran out of ids

---
 src/aaf2/metadict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 11098fe..68bd189 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -548,8 +548,9 @@ class MetaDictionary(core.AAFObject):
 
         while self.next_pid in self.local_pids:
             self.next_pid -= 1
-            if self.next_pid < 0x8000:
-                raise ValueError("ran out of local pids")
+
+        if self.next_pid < 0x8000:
+            raise ValueError("ran out of local pids")
 
         result = self.next_pid
         self.next_pid -= 1
-- 
2.43.0


From 7e8b468374fb0ac0afe92523425765cf1fe9987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 27/52] fix: a property id given to register_propertydef could
 be assigned again, and registering a class with explicit ids twice failed

---
 src/aaf2/metadict.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 68bd189..a1355d4 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -255,6 +255,8 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            self.root.metadict.local_pids.add(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -421,11 +423,12 @@ class MetaDictionary(core.AAFObject):
                 property_auid = prop_args[0]
                 pid = prop_args[1]
 
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
+                if str2auid(property_auid) in c.property_entries.get(PID_PROPERTIES, {}):
+                    # already registered, keeps its pid
+                    continue
+
+                if pid and pid >= 0x8000:
                     assert pid not in self.local_pids
-                    self.local_pids.add(pid)
 
                 c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
 
-- 
2.43.0


From d93fc73116a4c8b1774603573bd89de1b12357b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 28/52] fix: reassigning conflicting dynamic property ids of
 missing definitions left the old ids in use

---
 src/aaf2/metadict.py | 59 +++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index a1355d4..fe88cc0 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -563,6 +563,14 @@ class MetaDictionary(core.AAFObject):
 
     def read_properties(self):
         super(MetaDictionary, self).read_properties()
+
+        # dynamic pids used by the default typedefs, the file might use others
+        default_pids = {}
+        for classdef in self.classdefs_by_auid.values():
+            for pdef in classdef.propertydefs:
+                if pdef.pid >= 0x8000:
+                    default_pids[pdef.auid] = pdef.pid
+
         for key, typedef in self['TypeDefinitions'].items():
             self.typedefs_by_name[typedef.type_name] = typedef
             self.typedefs_by_auid[typedef.auid] = typedef
@@ -582,34 +590,6 @@ class MetaDictionary(core.AAFObject):
             classdef.propertydef_by_pid = propertydef_by_pid
 
 
-        # add typedefs not defined by file data model
-        if self.root.writeable:
-            for key, typedef in self.typedefs_by_auid.items():
-                # skip root typedefs
-                if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
-                           AUID('05022700-0000-0000-060E-2B3401040101')):
-                    continue
-
-                if key not in self['TypeDefinitions']:
-                    # this is super annoying, handle typedefs that have dynamic pids
-                    classdef = self.classdefs_by_auid.get(typedef.class_id)
-                    assert classdef
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            # if typedef has a dynamic pid might need to change it
-                            if pdef.pid in self.local_pids:
-                                old_pid = pdef.pid
-                                new_pid = self.next_free_pid()
-                                pdef.pid = new_pid
-
-                                prop = typedef.property_entries.pop(old_pid)
-                                prop.pid = new_pid
-                                typedef.property_entries[new_pid] = prop
-
-                    self['TypeDefinitions'].append(typedef)
-                    if classdef.auid not in self['ClassDefinitions']:
-                        self['ClassDefinitions'].append(classdef)
-
         # add classdefs not defined by file data model
         if self.root.writeable:
             for key, classdef in self.classdefs_by_auid.items():
@@ -624,5 +604,28 @@ class MetaDictionary(core.AAFObject):
                         if pdef.pid >= 0x8000:
                             if pdef.pid in self.local_pids:
                                 pdef.pid = self.next_free_pid()
+                            self.local_pids.add(pdef.pid)
 
+                    classdef.propertydef_by_pid = dict((pdef.pid, pdef) for pdef in classdef.propertydefs)
                     self['ClassDefinitions'].append(classdef)
+
+        for key, typedef in self.typedefs_by_auid.items():
+            # skip root typedefs
+            if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
+                       AUID('05022700-0000-0000-060E-2B3401040101')):
+                continue
+
+            if key not in self['TypeDefinitions']:
+                # this is super annoying, handle typedefs that have dynamic pids
+                classdef = self.classdefs_by_auid.get(typedef.class_id)
+                assert classdef
+                for pdef in classdef['Properties'].values():
+                    old_pid = default_pids.get(pdef.auid, pdef.pid)
+                    if old_pid != pdef.pid and old_pid in typedef.property_entries:
+                        prop = typedef.property_entries.pop(old_pid)
+                        prop.pid = pdef.pid
+                        typedef.property_entries[pdef.pid] = prop
+
+                # add typedefs not defined by file data model
+                if self.root.writeable:
+                    self['TypeDefinitions'].append(typedef)
-- 
2.43.0


From 20877cc808d8f90a5380657348cc5c0fad5969a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 29/52] fix: after opening a file names and aliases it does not
 use found replaced definitions

---
 src/aaf2/metadict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index fe88cc0..f420b7f 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -589,6 +589,12 @@ class MetaDictionary(core.AAFObject):
 
             classdef.propertydef_by_pid = propertydef_by_pid
 
+        # names the file does not use should not find replaced definitions
+        for name, classdef in self.classdefs_by_name.items():
+            self.classdefs_by_name[name] = self.classdefs_by_auid[classdef.auid]
+
+        for name, typedef in self.typedefs_by_name.items():
+            self.typedefs_by_name[name] = self.typedefs_by_auid[typedef.auid]
 
         # add classdefs not defined by file data model
         if self.root.writeable:
-- 
2.43.0


From 363837bd03fcba7c640ebec2cb3357babc09884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 30/52] fix: storage names of properties could hold forbidden
 characters or be too long

---
 src/aaf2/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index 4b901c9..a4f4a5c 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -199,7 +199,12 @@ def squeeze_name(name, size):
 def mangle_name(name, pid, size):
     p = "%x" % pid
     max_size = size - len(p) - 1 -1
-    new_name = squeeze_name(name, max_size)
+    new_name = ""
+    for ch in squeeze_name(name, max_size):
+        # not allowed in a storage name or more then one utf-16 unit
+        if ch in "/\\:!" or not 0x20 <= ord(ch) <= 0xFFFF:
+            ch = "_"
+        new_name += ch
     return "%s-%s" % (new_name, p)
 
 def safe_print(*args):
-- 
2.43.0


From 446cb7205db57b248c5158035eacc58ddd2c33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 31/52] fix: copying a weak reference type definition into
 another file failed

---
 src/aaf2/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index a494130..9ee1393 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
-- 
2.43.0


From 4e6656461a55f31dee687041f6c86726e91234f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 32/52] fix: registering a class of another file that has a
 type referring to itself never ended

---
 src/aaf2/metadict.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f420b7f..89f2040 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -448,9 +448,15 @@ class MetaDictionary(core.AAFObject):
 
         # create typedef if missing
         if not typedef:
+            # added before the definitions it uses, they can refer to it
+            typedef = ext_typedef.copy(self.root)
+
+            self['TypeDefinitions'].append(typedef)
+            self.typedefs_by_name[typedef.type_name] = typedef
+            self.typedefs_by_auid[typedef.auid] = typedef
+
             if isinstance(ext_typedef, (types.TypeDefStrongRef,
                                         types.TypeDefWeakRef)):
-                # could this cause RecursionError?
                 classdef = ext_typedef.ref_classdef
                 self.register_external_classdef(classdef)
 
@@ -472,12 +478,6 @@ class MetaDictionary(core.AAFObject):
             elif isinstance(ext_typedef, types.TypeDefEnum):
                 self.register_external_typedef(ext_typedef.element_typedef)
 
-            typedef = ext_typedef.copy(self.root)
-
-            self['TypeDefinitions'].append(typedef)
-            self.typedefs_by_name[typedef.type_name] = typedef
-            self.typedefs_by_auid[typedef.auid] = typedef
-
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
             ext_elements = ext_typedef.elements
-- 
2.43.0


From c38ecc9bc569efaa8a94d070f707a6f774859a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 33/52] fix: properties added to the base class were not
 registered when copying into another file

---
 src/aaf2/metadict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 89f2040..a28f094 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -492,12 +492,13 @@ class MetaDictionary(core.AAFObject):
     def register_external_classdef(self, ext_classdef):
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
-        for c in class_chain[1:]:
+        for c in class_chain:
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
+                parent = c.parent
                 classdef = self.register_classdef(c.class_name,
                                                   c.auid,
-                                                  c.parent.auid,
+                                                  parent.auid if parent else None,
                                                   c.concrete)
 
             for p in c.propertydefs:
-- 
2.43.0


From 29f06dbf7ce31f750f2148df10d0ed4726a273f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 34/52] fix: the path of a weak reference type was not brought
 along when copying into another file

---
 src/aaf2/file.py     | 5 ++++-
 src/aaf2/metadict.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 52e3afa..f89d969 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -291,7 +291,10 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1], None)
+        if p is None:
+            # nothing to refer to yet
+            p = root[root.classdef.get_propertydef_from_pid(path[-1]).property_name]
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index a28f094..7b7b41e 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -460,6 +460,11 @@ class MetaDictionary(core.AAFObject):
                 classdef = ext_typedef.ref_classdef
                 self.register_external_classdef(classdef)
 
+                if isinstance(ext_typedef, types.TypeDefWeakRef):
+                    # properties leading to the target set
+                    for classdef, p in ext_typedef.propertydef_path:
+                        self.register_external_classdef(classdef)
+
             elif isinstance(ext_typedef, (types.TypeDefFixedArray,
                                           types.TypeDefVarArray,
                                           types.TypeDefSet,
-- 
2.43.0


From 250a997699ab0f41883a25ed1a708f8f3dd3b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 35/52] fix: copying weak reference vectors and sets into
 another file failed when it lacks what they refer to

---
 src/aaf2/properties.py | 51 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index ba6dcf0..c0e5541 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1011,6 +1011,34 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref(src, p, ref, cache):
+    """returns what src refers to with ref in the file of p, copies it there if it is not present"""
+    root = p.parent.root
+    ref_classdef = src.ref_classdef
+
+    if ref_classdef.auid == CLASSDEF_AUID:
+        result = root.metadict.lookup_classdef(ref)
+        if result is None:
+            result = root.metadict.register_external_classdef(resolve_weakref(src, ref))
+        return result
+
+    if ref_classdef.auid == TYPEDEF_AUID:
+        result = root.metadict.lookup_typedef(ref)
+        if result is None:
+            result = root.metadict.register_external_typedef(resolve_weakref(src, ref))
+        return result
+
+    weakref_index = root.weakref_index(p.pid_path)
+    ref_parent, target_property = root.weakref_prop(weakref_index)
+
+    # add property value if not present
+    if ref not in target_property:
+        c = resolve_weakref(src, ref).copy(root=root, classdef_cache=cache)
+        target_property.append(c)
+
+    return target_property[ref]
+
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1029,21 +1057,7 @@ class WeakRefProperty(Property):
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                elif self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
-            p.value = target_property[self.ref]
+            p.value = copy_weakref(self, p, self.ref, cache)
 
         return p
 
@@ -1129,12 +1143,7 @@ class WeakRefArrayProperty(Property):
             p.key_pid = self.key_pid
             p.key_size = self.key_size
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-            for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
-                p.append(target_property[ref])
+            p.value = [copy_weakref(self, p, ref, cache) for ref in self.references]
 
         return p
 
-- 
2.43.0


From 6c3542df0b53942d8edcba733e669b582e754163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 36/52] fix: copies of vectors within a file used the wrong
 storage names

---
 src/aaf2/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index c0e5541..68af458 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -426,13 +426,13 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From 8daed6e5d3aef04ea3b19eac7aedb4199040879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 37/52] fix: copies of empty vectors and sets in another file
 could not be saved

---
 src/aaf2/properties.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 68af458..226778c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -442,9 +442,7 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
-            for i, value in enumerate(self):
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self])
 
         return p
 
@@ -744,9 +742,7 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
-            for value in self.values():
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])
 
         return p
 
-- 
2.43.0


From 21691c20ab7d37399ecd3546767a6a7ea9e4e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 38/52] fix: types of indirect values were not brought along
 when copying into another file

---
 src/aaf2/properties.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 226778c..30028ab 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -138,6 +138,13 @@ class Property(object):
     def copy(self, parent, pid, cache=None):
         p = self.__class__(parent, pid, self.format, version=PROPERTY_VERSION)
         p.data = bytes(self.data)
+
+        if parent.root is not self.parent.root:
+            # types named in the value itself
+            typedef = self.typedef
+            if hasattr(typedef, 'decode_typedef') and p.data[0:1] == b'\x4c':
+                parent.root.metadict.register_external_typedef(typedef.decode_typedef(p.data))
+
         return p
 
     @property
-- 
2.43.0


From 606f20e50a89b4894115bd015356b3c08e0c3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 39/52] fix: enum values of element types were not brought
 along when copying into another file

---
 src/aaf2/metadict.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 7b7b41e..35c8fdc 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -465,23 +465,21 @@ class MetaDictionary(core.AAFObject):
                     for classdef, p in ext_typedef.propertydef_path:
                         self.register_external_classdef(classdef)
 
-            elif isinstance(ext_typedef, (types.TypeDefFixedArray,
-                                          types.TypeDefVarArray,
-                                          types.TypeDefSet,
-                                          types.TypeDefString,
-                                          types.TypeDefEnum)):
+        # known typedefs can be made of enums missing values
+        if isinstance(ext_typedef, (types.TypeDefFixedArray,
+                                    types.TypeDefVarArray,
+                                    types.TypeDefSet,
+                                    types.TypeDefString,
+                                    types.TypeDefEnum)):
 
-                self.register_external_typedef(ext_typedef.element_typedef)
+            self.register_external_typedef(ext_typedef.element_typedef)
 
-            elif isinstance(ext_typedef, types.TypeDefRecord):
-                for t in ext_typedef.member_types:
-                    self.register_external_typedef(t)
+        elif isinstance(ext_typedef, types.TypeDefRecord):
+            for t in ext_typedef.member_types:
+                self.register_external_typedef(t)
 
-            elif isinstance(ext_typedef, types.TypeDefRename):
-                self.register_external_typedef(ext_typedef.renamed_typedef)
-
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
+        elif isinstance(ext_typedef, types.TypeDefRename):
+            self.register_external_typedef(ext_typedef.renamed_typedef)
 
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
-- 
2.43.0


From 6c9a5e654e72b7a9d65767ce41063db9d28d45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 40/52] fix: detaching an unattached object that holds a stream
 failed

---
 src/aaf2/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 30028ab..058a10e 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -259,6 +259,9 @@ class StreamProperty(Property):
                 return self.dir.open(mode)
 
     def detach(self):
+        if not self.attached:
+            return
+
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
-- 
2.43.0


From 431c14bbaab70dd330a41f0e0aead3f950a05293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 41/52] fix: weak references into a set of an inherited
 property could not be resolved

---
 src/aaf2/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 9ee1393..1ab2421 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -204,7 +204,7 @@ class TypeDefWeakRef(TypeDef):
         classdef = self.root.metadict.lookup_classdef("Root")
         for p_auid in self.target_set_path:
             found = False
-            for p in classdef.propertydefs:
+            for p in classdef.all_propertydefs():
                 if p.auid == p_auid:
                     path.append((classdef, p))
                     classdef = p.typedef.ref_classdef
-- 
2.43.0


From b920a9c8a47e7cd9b67c23bcf48bf8c9fb0b48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 42/52] fix: index_at_time(0) gave a leading component of no
 length

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index dc977e0..004399a 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -87,7 +87,7 @@ class Sequence(Segment):
         last_component = None
         last_index = None
 
-        if edit_unit <= 0:
+        if edit_unit < 0:
             return 0
 
         # this needs to go past target index to handle Transitions
-- 
2.43.0


From 403f2b8c5e220825846879074a6c09ccb21e4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 43/52] fix: add_keyframe compared times with more precision
 than it stores

---
 src/aaf2/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index d057e9f..809b39b 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -227,6 +227,8 @@ class VaryingValue(Parameter):
     def add_keyframe(self, time, value, edit_hint=None):
         cp = self.root.create.ControlPoint()
         cp.time = time
+        # compare what is stored
+        time = cp.time
 
         cp['Value'].add_pid_entry()
         cp['Value'].data = cp['Value'].typedef.encode(value, self.typedef)
-- 
2.43.0


From 1d21f527672e81049682e99963e5857862843100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 44/52] fix: value_at was not exact at keyframes

---
 src/aaf2/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 809b39b..35a2d96 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -263,7 +263,7 @@ class VaryingValue(Parameter):
         p1 = pointlist[index]
 
         # clamp if t outside of range
-        if t < p1.time or index + 1 >= len(pointlist):
+        if t <= p1.time or index + 1 >= len(pointlist):
             return float(p1.value)
 
         if self.interpolationdef.auid == ConstantInterp:
-- 
2.43.0


From 6e4781a55a89b94c42ae52bbd6f273d88717c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 45/52] fix: negative positions and lengths of mxf components
 were read as unsigned

---
 src/aaf2/mxf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..de56334 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
-- 
2.43.0


From 4665d7e6170a6bb3eafe43fec9acf779dd66030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 46/52] fix: mxf partitions without alignment (kag size 0)
 could not be read

---
 src/aaf2/mxf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index de56334..9305691 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -923,6 +923,9 @@ class MXFFile(object):
         return mobs
 
     def round_to_kag(self, pos, kag_size):
+        if not kag_size:
+            # not aligned
+            return pos
         ret = (pos // kag_size) * kag_size
         if ret == pos:
             return pos
-- 
2.43.0


From b9584e8d7826a229f17121df2b3cdc7881d84210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 47/52] fix: mxf header metadata sets at the end of the header
 partition were skipped

---
 src/aaf2/mxf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 9305691..3214f9d 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -933,6 +933,7 @@ class MXFFile(object):
 
 
     def read_header(self, f, length):
+        pack_end = f.tell() + length
         major_version = read_u16be(f)
         minor_version = read_u16be(f)
         kag_size = read_u32be(f)
@@ -946,7 +947,7 @@ class MXFFile(object):
         body_sid = read_u32be(f)
         self.header_operation_pattern = read_auid_be(f)
 
-        self.header_partition_size = (self.round_to_kag(length, kag_size) +
+        self.header_partition_size = (self.round_to_kag(pack_end, kag_size) +
                                       self.round_to_kag(header_byte_count, kag_size) +
                                       self.round_to_kag(index_byte_count, kag_size))
 
-- 
2.43.0


From f80b4b0cc9c1438fab711ff4e4458e71e3257cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 48/52] fix: linking an mxf MPEG2VideoDescriptor raised
 NameError

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 3214f9d..af712d6 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From 0ede64a78ee79909f3a67d4f8d44bb82da0aa2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 49/52] fix: widths and heights of dnx frames were read as
 signed

---
 src/aaf2/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/video.py b/src/aaf2/video.py
index 2e96183..3899c4d 100644
--- a/src/aaf2/video.py
+++ b/src/aaf2/video.py
@@ -204,7 +204,7 @@ def read_dnx_frame_header(dnx_header):
         raise ValueError("Invalid DNxHD frame: unknown prefix: 0x%012X" % prefix)
 
     #NOTE Stored height then width...
-    height, width = unpack(b">24xhh", dnx_header[:28])
+    height, width = unpack(b">24xHH", dnx_header[:28])
     cid = unpack(b">40xi", dnx_header[:44])[0]
 
     interlaced =  unpack(b'B', dnx_header[5:6])[0] & 2 != 0
-- 
2.43.0


From 986ffd8b5a12602daa166ea97e4b00737a4637ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 50/52] fix: importing audio with a rational edit rate given as
 text failed

---
 src/aaf2/mobs.py  | 2 +-
 src/aaf2/utils.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 6be689a..b996198 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -420,7 +420,7 @@ class SourceMob(Mob):
 
         # set lengths
         descriptor.length = frames
-        slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))
+        slot.segment.length = length or int(rescale(frames, sample_rate, AAFRational(edit_rate)))
 
         if essencedata is not None:
             stream = essencedata.open('w')
diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index a4f4a5c..8fc7f34 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -7,6 +7,7 @@ from __future__ import (
 
 import sys
 from struct import unpack, pack
+from fractions import Fraction
 from . import auid
 
 def read_u8(f):
@@ -224,4 +225,5 @@ def register_class(classobj):
     return classobj
 
 def rescale(value, current_rate, new_rate):
-    return (float(value) * float(new_rate)) / float(current_rate)
+    # exact, rates can be rationals
+    return Fraction(value) * Fraction(new_rate) / Fraction(current_rate)
-- 
2.43.0


From 7e097591fed99bd247b4ee673f55c526c4bc08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:11 +0000
Subject: [PATCH 51/52] fix: a value set through a second Property instance of
 an unset property was lost

Two Property objects obtained for a property that is not set yet (or one
kept over remove and re-create) both accept a value, but only the first one
was kept in property_entries, so the later assignment silently disappeared.
---
 src/aaf2/properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 058a10e..f25cb4c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -170,7 +170,8 @@ class Property(object):
             return
 
         self.data = self.typedef.encode(value)
-        self.add_pid_entry()
+        # the value set last counts, whichever Property instance was used
+        self.parent.property_entries[self.pid] = self
 
     def add_pid_entry(self):
         if not self.pid in self.parent.property_entries:
@@ -1127,7 +1128,7 @@ class WeakRefProperty(Property):
 
         self.ref = value.unique_key
         self.data = self.encode()
-        self.add_pid_entry()
+        self.parent.property_entries[self.pid] = self
 
 
 class WeakRefArrayProperty(Property):
-- 
2.43.0


From 7fcd6786c74326501fa314df28cc7279c2339ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 52/52] fix: removing an entry unbalanced the tree of its
 siblings and left red entries below red ones

---
 src/aaf2/cfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a2cd4b2..2e2106e 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -911,7 +911,7 @@ class DirEntry(object):
                     assert is_parent_of(parent, node)
 
                 elif is_not_red(node[1 - direction]):
-                    sibling = parent[1 - direction]
+                    sibling = parent[1 - last]
                     if sibling is not None:
 
                         if is_not_red(sibling[1 - last]) and is_not_red(sibling[last]):
@@ -949,7 +949,7 @@ class DirEntry(object):
             raise CompoundFileBinaryError("max dir entries limit reached")
 
         # entry parent could have changed during rebalance
-        max_search_depth = 4 # grand_parent -> parent -> node
+        max_search_depth = 5 # grand_parent -> rotated -> parent -> rotated -> node
         entry_parent = find_entry_parent(entry_grand_parent, entry, max_search_depth)
 
         if entry_parent[0] is entry:
-- 
2.43.0

