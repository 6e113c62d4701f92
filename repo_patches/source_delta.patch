From 5868394c44575f787f5c2b47564be4ff25576683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 01/39] fix: del, remove and pop take out the addressed member
 and its id

remove() and del took out the first member that is equal to the addressed
one, a refused remove() lost the id of the member having the same id, and
pop() left the id of the removed member in the index.
---
 xigt/mixins.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..75f094d 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -76,7 +76,13 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        if isinstance(obj_id, int):
+            idx = obj_id
+        elif obj_id in self._dict:
+            idx = self._index_of(obj)
+        else:
+            idx = int(obj_id)
+        self.pop(idx)
 
     def get(self, obj_id, default=None):
         try:
@@ -118,9 +124,22 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
+        self.pop(self._index_of(obj))
+
+    def pop(self, idx=-1):
+        # NOTE: this method is destructive. check for broken refs here?
+        obj = list.pop(self, idx)
+        if self._dict.get(obj.id) is obj:
             del self._dict[obj.id]
-        list.remove(self, obj)
+        return obj
+
+    def _index_of(self, obj):
+        # objects may be equal without being the same object, so only look
+        # for an equal one (as list.index() does) if obj is not a member
+        for i, member in enumerate(list.__iter__(self)):
+            if member is obj:
+                return i
+        return list.index(self, obj)
 
     def clear(self):
         self._dict.clear()
-- 
2.43.0


From d2c584d71010ea6ebb4f0447791bddc8fea34aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 02/39] fix: keep parents and ids right when members are
 assigned or refused

Item assignment did not set the parent of the new member, and lost the id of
the current member if the new one had the id of another member. append() and
insert() changed the parent of objects they refused.
---
 xigt/mixins.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 75f094d..0c09113 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -70,7 +70,14 @@ class XigtContainerMixin(list):
             cur_obj = list.__getitem__(self, idx)
         if cur_obj.id is not None:
             del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        try:
+            self._create_id_mapping(obj)
+        except XigtError:
+            # the new object was refused, so the current one stays
+            if cur_obj.id is not None:
+                self._dict[cur_obj.id] = cur_obj
+            raise
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
@@ -108,14 +115,14 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From 4bebe38c9b2c8f2551f73e474c937e504b415644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 03/39] fix: += maintains ids, parents and types like extend()

list.__iadd__ was used, which bypasses them. Also, extending a container
of objects without ids with itself did not end.
---
 xigt/mixins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 0c09113..9e46310 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -126,9 +126,15 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
+        if objs is self:
+            objs = list(objs)
         for obj in objs:
             self.append(obj)
 
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         self.pop(self._index_of(obj))
-- 
2.43.0


From 6acee2cb473ae7c47205325a397386e0904757cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 04/39] fix: assigning a container to its own members property
 keeps the members

The setters of metadata, igts, tiers, items, metas and children emptied the
container before reading the assigned value, so e.g. x.metadata += [md] (or
assigning a generator over the container) lost all previous members.
---
 xigt/metadata.py | 10 +++++++---
 xigt/model.py    |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..9002c43 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,6 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
+        value = list(value or [])  # it may be self._md
         self._md.clear()
         self._md.extend(value)
 
@@ -113,8 +114,9 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     # deprecated properties
 
@@ -161,8 +163,9 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -202,5 +205,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..2dd7b6a 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -111,8 +111,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -197,8 +198,9 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -298,8 +300,9 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
+        value = list(value or [])  # it may be self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From 48801c2d365be8093ab65167a743210355766282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 05/39] fix: refresh_index does not load the rest of an
 incremental corpus

It indexed the newly loaded IGTs a second time and failed.
---
 xigt/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9e46310..18b3427 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -170,7 +170,7 @@ class XigtContainerMixin(list):
 
     def refresh_index(self):
         self._dict = {}
-        for obj in self:
+        for obj in list.__iter__(self):
             self._create_id_mapping(obj)
 
     # deprecated methods
-- 
2.43.0


From 3ab2da1f9f3047cd5cb4686935643d5f4ec0e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 06/39] fix: != is the negation of ==, and a Meta never equals
 a MetaChild

list.__ne__ ignored ids, types, attributes and metadata. Meta.__eq__ accepted
MetaChild objects, so == was not symmetric.
---
 xigt/metadata.py | 3 ++-
 xigt/mixins.py   | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9002c43..cfd4282 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -151,7 +151,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 18b3427..698695e 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # the __ne__ of list does not use __eq__
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From 2428bff47020b2512b60103f9949163b12257f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 07/39] fix: get_attribute expands the namespace of inherited
 attributes once

The expanded key was expanded again for each parent, so attributes with a
namespace were never inherited.
---
 xigt/mixins.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 698695e..e95e210 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -226,7 +226,9 @@ class XigtAttributeMixin(object):
                 'Attribute key must be of type str, not '
                 + key.__class__.__name__
             )
-        if not key.startswith('{') and ':' in key:
+        if key.startswith('{'):
+            pass  # already expanded
+        elif ':' in key:
             prefix, suffix = key.split(':', 1)
             key = '{%s}%s' % (self.nsmap[prefix], suffix)
         elif namespace in self.nsmap:
@@ -237,9 +239,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # don't pass on namespace; it is part of the key now
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From b48f9d64e95ae2fabed3e4693429ce71c2dc6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 08/39] fix: check the whole string when validating ids and
 names

Ids such as "a b" or "a[1:2]" were accepted because only a prefix was matched;
references cannot select them. Names could end with a newline. Record keys in
Toolbox files are made valid ids.
---
 xigt/importers/toolbox.py | 3 ++-
 xigt/metadata.py          | 2 +-
 xigt/mixins.py            | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..806edf3 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -160,8 +160,9 @@ def toolbox_igts(tb, options):
 def make_igt(key, data, context, options):
     # IDs must start with a letter
     assert key
-    if not key[0].isalpha():
+    if not re.match('[a-zA-Z]', key):
         key = 'igt{}'.format(key)
+    key = re.sub(r'[^-.\w]', '_', key)
     if context is None:
         context = {}
     attrs = {}
diff --git a/xigt/metadata.py b/xigt/metadata.py
index cfd4282..38f0b64 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -13,7 +13,7 @@ from xigt.errors import XigtError
 # This also excludes colons in the name (because of potential trouble
 # with xml processors treating them as namespace delimiters)
 # http://www.w3.org/TR/2000/WD-xml-2e-20000814#NT-Name
-name_re = re.compile(r'^[^\W\d][-.\w]*$')
+name_re = re.compile(r'^[^\W\d][-.\w]*\Z')
 
 class XigtMetadataMixin(object):
     """
diff --git a/xigt/mixins.py b/xigt/mixins.py
index e95e210..c6ff316 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -249,8 +249,10 @@ class XigtAttributeMixin(object):
         return self._id
     @id.setter
     def id(self, value):
-        if value is not None and not id_re.match(value):
-            raise ValueError('Invalid ID: {}'.format(value))
+        if value is not None:
+            m = id_re.match(value)
+            if m is None or m.end() != len(value):
+                raise ValueError('Invalid ID: {}'.format(value))
         self._id = value
 
     @property
-- 
2.43.0


From 807f7dff921e1d0087e2e6ab5d4d222e6ef006ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 09/39] fix: the item and referrer indices of an Igt are exact
 after a refresh

Items that had been removed were still found, an item without id was found
as get_item(None), and an object referring to the same id twice was listed
twice as its referrer (unlike in ref.referrers()).
---
 xigt/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 2dd7b6a..8ae8476 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -156,9 +156,11 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            idict = self._itemdict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
@@ -185,7 +187,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 inv_ids_map = defaultdict(lambda: defaultdict(list))
                 for obj_id, ra_map in ids_map.items():
                     for refattr, ref_ids in ra_map.items():
-                        for ref_id in ref_ids:
+                        for ref_id in set(ref_ids):
                             inv_ids_map[ref_id][refattr].append(obj_id)
                 self._referrer_cache = inv_ids_map
 
-- 
2.43.0


From 57dcf1ea4997dc2a6001a9218036fa88ad4dc5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 10/39] fix: sort_tiers works with cyclic and dangling
 references and without ids

It did not end if tier references were cyclic, raised KeyError if a tier
referred to does not exist, and mixed up tiers without ids.
---
 xigt/model.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 8ae8476..055508c 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -223,25 +223,30 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
-        pr = {}  # prioritized referent
-        for t in self:
+        # use positions instead of ids, as not every tier may have an id
+        idx = {t.id: i for i, t in enumerate(self) if t.id is not None}
+        pr = {}  # prioritized referent (if it exists)
+        for i, t in enumerate(self):
             ra_i = next(
-                ((ra, i) for i, ra in enumerate(refattrs)
+                ((ra, p) for p, ra in enumerate(refattrs)
                  if ra in t.attributes),
                 None
             )
             if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+                ref_idx = idx.get(t.get_attribute(ra_i[0]))
+                if ref_idx is not None:
+                    pr[i] = (ref_idx, ra_i[1])
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
-                key.append((idx[tmp[0]], tmp[1]))
+        for i, t in enumerate(self):
+            key = [(i, 0)]  # default value
+            visited = set([i])  # avoid cycles
+            tmp = pr.get(i)
+            while tmp and tmp[0] not in visited:  # iterative depth first
+                key.append(tmp)
+                visited.add(tmp[0])
                 tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From 7a560cff94df32aa1dbab02f72e0d54315808021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 11/39] fix: ancestors() keeps track of the visited tiers

set.update() added the characters of the tier id, so cycles were not detected
for ids of several characters, and single-letter ids stopped it too early.
---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 93423bbb56d737c3e58e00b32c2173ce3d249ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 12/39] fix: every iteration over an incremental corpus yields
 all IGTs

Those loaded by an earlier, unfinished iteration were left out, and a corpus
created without IGTs could not be iterated at all.
---
 xigt/model.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 055508c..e16ee41 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,22 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            i = 0
+            while True:
+                if i >= len(self):
+                    # all loaded Igts have been yielded, so load another
+                    try:
+                        self.append(next(self._generator))
+                    except StopIteration:
+                        break
+                yield self[i]
+                i += 1
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From 4616a1657804d35c0d30d9bfcb5f03060bfb3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 13/39] fix: XigtJSON keeps the type of the corpus and empty
 strings

The type of the corpus was not decoded; empty types and item texts were not
encoded.
---
 xigt/codecs/xigtjson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..35c0c29 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
@@ -189,7 +190,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -253,6 +254,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From d8b55ac2bcb062d32e3938d3d406198079805c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 14/39] fix: XigtJSON decodes attributes with a namespace

The keys were encoded as prefix:name, but not expanded to {uri}name when
decoding, so they could not be found anymore.
---
 xigt/codecs/xigtjson.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 35c0c29..12351c6 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=obj.get('namespaces')
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -171,6 +171,18 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # re-expand the keys whose namespace was encoded as a prefix
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        if ':' in k and not k.startswith('{'):
+            prefix, key = k.split(':', 1)
+            if prefix in nsmap:
+                k = '{%s}%s' % (nsmap[prefix], key)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 10fcc1c95a01ef6a50477b55cbe54cd2e33caa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 15/39] fix: XigtXML decodes the type of the corpus as its type

It was made an attribute.
---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From f6a696a173ccd8fa3ac63c2757a41943065c6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 16/39] fix: XigtXML keeps all attributes of the children of
 Meta objects

MetaChild objects have no id or type, so attributes of these names have to be
kept like the others instead of being dropped.
---
 xigt/codecs/xigtxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..2aaa4b7 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,7 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From 9930833b139271a764dee9ce588ab54f2019795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 17/39] fix: XigtXML writes default namespaces

An element such as <title xmlns="..."> in a <meta> was written as <:title
xmlns:="...">, which is not well-formed.
---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 2aaa4b7..cabec9b 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -359,14 +359,15 @@ def default_decode_metachild(elem):
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
     revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
+    if revmap.get(ns):  # the default namespace has an empty prefix
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
     # element attributes (including namespaces)
     if hasattr(obj, 'nsmap'):
         for pre, uri in obj.nsmap.items():
             if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+                xmlns = 'xmlns:%s' % pre if pre else 'xmlns'
+                e.set(_QName(xmlns, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
-- 
2.43.0


From c4909b9dc620cc071b1479734ad65672e33e1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 18/39] fix: XigtXML only looks for IGTs directly below the
 corpus

Elements in <meta> that happened to be named like <igt> or <xigt-corpus> were
taken for them.
---
 xigt/codecs/xigtxml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index cabec9b..2814e54 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -201,9 +201,11 @@ def ns_iterparse(fh, events=('start', 'end')):
 def iter_elements(tag, events, root, break_on=None):
     if break_on is None:
         break_on = []
+    depth = 1  # the first element has been started already
     event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+    while depth > 0 or (event, elem.tag) not in break_on:
+        depth += 1 if event == 'start' else -1
+        if depth == 0 and elem.tag == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -213,7 +215,11 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
+    depth = 0  # elements in <meta> may have any name
+    while depth > 0 or (event, elem.tag) not in [('start', 'igt'),
+                                                 ('end', 'xigt-corpus')]:
+        if elem is not root:
+            depth += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
     if event == 'start' and elem.tag == 'igt':
-- 
2.43.0


From 42bbb026cdbc41542bbfffaadd71065bf72d0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 19/39] fix: XigtJSON keeps inherited prefixes of objects that
 declare namespaces

Only the additional declarations are encoded, and they became the whole
namespace map of the decoded object, so prefixes declared further up could
not be used on it anymore.
---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 12351c6..3e707ce 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return mc
 
-- 
2.43.0


From 8ace9d767598dfa32d18eafd3757a3d631238870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 20/39] fix: XigtPath predicates without comparison

e.g. tier[@type] raised a TypeError.
---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..1d9f380 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -253,7 +253,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From c7b3d41ab657b71afc232c3d8943be89e27de95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 21/39] fix: XigtPath honours namespace prefixes in // and for
 metadata

With //, the prefix was compared to the namespace URI of the context object
and ignored for its descendants; for metadata it was compared to the URI or
ignored. //* selected nothing.
---
 xigt/xigtpath.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 1d9f380..7872feb 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -169,7 +169,7 @@ def _find_child(obj, name):
         kwargs['namespace'] = namespace
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        results = list(_select_metadata(obj, **kwargs))
         results.extend(obj.select(**kwargs))
     elif (name == 'igt' and hasattr(obj, 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
@@ -178,15 +178,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
-                results
-            )
+        results = _select_metadata(obj, **kwargs)
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
@@ -194,6 +186,15 @@ def _find_child(obj, name):
     for res in results:
         yield res
 
+def _select_metadata(obj, namespace=None):
+    # for metadata we need to filter by namespace ourselves (but
+    # we don't really expect for <metadata> elements to have a
+    # namespace, so maybe this is unnecessary?)
+    for md in getattr(obj, 'metadata', []):
+        if (namespace is None or
+                md.namespace == obj.nsmap.get(namespace, namespace)):
+            yield md
+
 def _find_attr(obj, attr):
     vals = []
     # pseudo-attributes (members in the model, attrs in the xml and path)
@@ -216,12 +217,16 @@ def _find_attr(obj, attr):
 def _find_descendant_or_self(obj, name):
     namespace = None
     if ':' in name:
-        namespace, name = name.split(':', 1)
+        prefix, localname = name.split(':', 1)
+        namespace = obj.nsmap.get(prefix, prefix)
+    else:
+        localname = name
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if (namespace is None or obj.namespace == namespace) and \
+            localname in ('*', objname):
         yield obj
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
-- 
2.43.0


From d3e5af414cf3dc9c1a9e5dfb44c8b117206d0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 22/39] fix: XigtPath names may begin like functions, functions
 may have arguments

@value-id was split in two, a child named "text" was taken for a function, and
the second of several arguments was not separated from the comma.
---
 xigt/xigtpath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 7872feb..8f10ddf 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,8 +40,9 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r'(?:text|value|referent|referrer)(?=\s*\()|'
+    r',|'  # argument separator
+    r'\*|[^.\/\[\]!=|()",]+'  # .., *, igt, tier, item, etc.
 )
 
 def tokenize(path):
@@ -125,7 +126,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer') and
+                steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From 473ecff599033aedad5b6674d862164721cde8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 23/39] fix: XigtPath literals may contain escaped quotes

The backslashes were kept, and quotes at the ends were dropped.
---
 xigt/xigtpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 8f10ddf..cefdb93 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -48,6 +48,11 @@ xp_tokenizer_re = re.compile(
 def tokenize(path):
     return [t.strip() for t in xp_tokenizer_re.findall(path) if t.strip()]
 
+def _unquote(token):
+    if token.startswith('"'):
+        token = re.sub(r'\\(.)', r'\1', token[1:-1], flags=re.DOTALL)
+    return token
+
 def find(obj, path):
     return next(iterfind(obj, path), None)
 
@@ -157,7 +162,7 @@ def _function(obj, func, args):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
         if args:
-            refattrs = [ra.strip('"') for ra in args if ra != ',']
+            refattrs = [_unquote(ra) for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
         yield result
@@ -263,7 +268,7 @@ def _make_predicate_test(steps):
         predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = _unquote(steps.popleft())
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
-- 
2.43.0


From 4ea6ad07501e59b5ac39c7b3d2fbffe12af69118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 24/39] fix: XigtPath groups may be followed by steps and
 applied to nothing

Steps after a group at the beginning of a path were ignored, and nested groups
without anything to select from raised XigtPathError.
---
 xigt/xigtpath.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index cefdb93..c7880ee 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -76,10 +76,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -90,6 +87,12 @@ def _expr(objs, steps):
 
 def _disjunction(objs, steps):
     results = []
+    objs = list(objs)
+    if not objs:
+        # nothing to do, but go to the end of the disjunction
+        nesting = 1
+        while nesting:
+            nesting += {'(': 1, ')': -1}.get(steps.popleft(), 0)
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
-- 
2.43.0


From c27be5cef9aeb9c3d73f7979efe53148c4db1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 25/39] fix: XigtPath .. selects nothing if there is no parent

It raised an AttributeError for the corpus.
---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index c7880ee..fe5638e 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -129,7 +129,8 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            parents = (getattr(obj, '_parent', None) for obj in objs)
+            results = (p for p in parents if p is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From 314287dbf2aac405ae0654bf34ad7cfd839638de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 26/39] fix: validate item references to empty tiers and tier
 references by position

An empty tier was taken for a missing one, so items missing in it were not
reported; a tier reference such as "0" selected a tier by its position.
---
 xigt/scripts/xigt_validate.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..c9215ef 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -189,7 +189,14 @@ def get_referred_tier(item, refattr):
     tierref = item.tier.attributes.get(refattr)
     if not tierref:
         return None
-    return item.igt.get(tierref)
+    return get_tier(item.igt, tierref)
+
+def get_tier(igt, tier_id):
+    # Igt.get() also accepts positions, which are not references
+    tier = igt.get(tier_id)
+    if tier is not None and tier.id == tier_id:
+        return tier
+    return None
 
 
 # TEST FUNCTIONS
@@ -221,7 +228,7 @@ def has_type(obj):
 
 def reference_id_in_igt(tier, refattr):
     refid = tier.attributes.get(refattr)
-    if refid and tier.igt.get(refid) is None:
+    if refid and get_tier(tier.igt, refid) is None:
         return ('The reference attribute "{}" {{modal}} select an '
                 'available <tier> id.'.format(refattr))
 
@@ -239,7 +246,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -256,7 +263,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref):
@@ -285,7 +292,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref):
-- 
2.43.0


From ad29ae3083da143f15d5fc03d8c0813d55f8023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 27/39] fix: validate the spans of references

Overlapping spans were never reported, as spans() returns strings only.
References separated by spaces and spans of items without a (resolvable)
value made the validator crash.
---
 xigt/scripts/xigt_validate.py | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index c9215ef..2d17fcd 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtAttributeError, XigtStructureError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -191,6 +191,13 @@ def get_referred_tier(item, refattr):
         return None
     return get_tier(item.igt, tierref)
 
+def get_value(item):
+    # items without a (resolvable) value are treated as empty strings
+    try:
+        return item.value() or ''
+    except (XigtStructureError, KeyError):
+        return ''
+
 def get_tier(igt, tier_id):
     # Igt.get() also accepts positions, which are not references
     tier = igt.get(tier_id)
@@ -266,9 +273,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or reftier is None:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
@@ -279,7 +284,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = len(get_value(tgt_item))
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
@@ -295,21 +300,18 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
-            if tgt_item is None:
-                continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
+    for span in spans(itemref, keep_delimiters=False):
+        sel_delim, item_id, _range = selection_re.match(span).groups()
+        tgt_item = reftier.get(item_id)
+        if tgt_item is None:
+            continue  # this should be caught by algnexpr_ids_in_referred_tier
+        item_len = len(get_value(tgt_item))
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            selected = range(*slice(int(start), int(end)).indices(item_len))
         else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+            selected = range(0, item_len)
+        spans_by_id[item_id].update(selected)
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From eeb6b6b9daa1d5595a0a7c09cea9dc300522238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 28/39] fix: xigt partition does not overwrite its own output

If the keys of two partitions led to the same file name (a:b and a-b, or the
default key and no key), only one of them was in the file afterwards.
---
 xigt/scripts/xigt_partition.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..4360796 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -17,13 +17,11 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, idx, args.default_key)
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        out_fn = os.path.join(args.outdir, key + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
@@ -36,11 +34,14 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, idx, default_key='---'):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
-        idx[idx_key][fn].add(i)
+        if idx_key is None:
+            idx_key = default_key
+        # different keys may lead to the same file
+        idx[normalize_key(idx_key)][fn].add(i)
 
 def normalize_key(key):
     return key.replace(':', '-')
-- 
2.43.0


From c48760518cb363d06d4b2b664a01d56f7d323a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 29/39] fix: xigt sort works with several keys

The values of the keys were joined to a single list, so values with different
numbers of parts led to comparisons of integers with strings, or of different
keys with each other.
---
 xigt/scripts/xigt_sort.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..d77f924 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,11 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # (each sort key has its own list, so that integers are only ever
+    # compared to integers and strings to strings)
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From 5c43231283242b2216fa6213b0bdf26c725e58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 30/39] fix: LaTeX escapes do not join with the following
 letters

a\b became a\textbackslashb, which is an undefined command. Replace each
character once, so that the braces after commands are not escaped.
---
 xigt/exporters/latex.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..f9b0099 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,9 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
+# commands need {} so that they do not swallow what follows
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +22,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -59,9 +59,8 @@ def escape(s):
     # _unescape_func = lambda m: _character_unescapes[m.group(0)]
     # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
     # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From 8a4a2d1e72cfa85403d973936cda7ee289848f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 31/39] fix: LaTeX export of unaligned items

Items without alignment or segmentation raised a TypeError; columns of unaligned
items at the end got an extra cell if there were other columns to fill.
---
 xigt/exporters/latex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index f9b0099..a4991cd 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -171,21 +171,21 @@ def align_tier(trellis, tier):
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(idx, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From c5a1d8fa4c4a3e03e05e76e78ed849e1eb1838c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 32/39] fix: LaTeX export of empty tiers

It raised an IndexError if the first tier is empty.
---
 xigt/exporters/latex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index a4991cd..87c2366 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -86,8 +86,7 @@ def export_igt(igt, config):
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
@@ -122,13 +121,12 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], 1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-- 
2.43.0


From c5d7873e7589109095f74de4f04bd6883506c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 33/39] fix: Toolbox import: imprecise segments reach to the
 end of the word

The end was computed from the truncated word, so it was less than the begin
for long words.
---
 xigt/importers/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 806edf3..c0a8bc2 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -334,8 +334,8 @@ def align_word(tier_type, s, src_data):
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-                    tgt_tok = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
-                    if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
+                    rest = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
+                    if rest.startswith(new_tok):  # left hand side of rest is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
             return def_val, len(tgt_tok), -1
-- 
2.43.0


From f9509fba27f207f5c182ab447a776c1c0ad807d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 34/39] fix: ODIN import: take the replacement character
 literally

A backslash raised an error. So did lines without content.
---
 xigt/importers/odin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..ecf44be 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -190,7 +190,7 @@ def make_igt_raw_tier(block, options):
             options['replacement_char']
         )
         attrs = linedata.copy()
-        del attrs['content']
+        attrs.pop('content', None)
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
@@ -229,4 +229,5 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    # use a function as backslashes are special in replacement strings
+    return invalid_char_re.sub(lambda m: replacement_char, input)
-- 
2.43.0


From 189b433364b03320d9f220009f48c40dbf77ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 35/39] fix: an Item is not equal to a Meta or MetaChild

---
 xigt/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index e16ee41..f940b9f 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -365,7 +365,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From b9b91d7261dd0efe044af113df36df7bce5f3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 36/39] fix: keep newlines between the ids of a reference
 expression

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..7f12e0d 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -16,7 +16,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # newlines are whitespace, too
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
-- 
2.43.0


From 7dd925a079527bceae8128cf9f08231fcc50c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 37/39] fix: XigtPath: allow whitespace before the attribute
 axis

---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index fe5638e..8f8f446 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -42,7 +42,7 @@ xp_tokenizer_re = re.compile(
     r'!=|=|'  # comparisons
     r'(?:text|value|referent|referrer)(?=\s*\()|'
     r',|'  # argument separator
-    r'\*|[^.\/\[\]!=|()",]+'  # .., *, igt, tier, item, etc.
+    r'\*|[^.\/\[\]!=|()",@]+'  # .., *, igt, tier, item, etc.
 )
 
 def tokenize(path):
-- 
2.43.0


From 3780e729d2f4e38d48c4236cb4ced0a9b39ee393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:36 +0000
Subject: [PATCH 38/39] fix: XigtPath predicates may contain predicates

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 8f8f446..5ec8722 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -265,7 +265,9 @@ def _make_predicate_test(steps):
     steps.popleft()  # '['
     # parse expr here?
     subpath = deque()
-    while steps[0] not in (']', '=', '!='):
+    nesting = 0  # the path may have predicates of its own
+    while nesting or steps[0] not in (']', '=', '!='):
+        nesting += {'[': 1, ']': -1}.get(steps[0], 0)
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-- 
2.43.0


From 9bad47077688dcc334fd4fee5df9937e889c25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:40 +0000
Subject: [PATCH 39/39] fix: xigt sort works with numbers of any length

---
 xigt/scripts/xigt_sort.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index d77f924..655c755 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -4,6 +4,7 @@ from __future__ import print_function
 import re
 import argparse
 import logging
+from decimal import Decimal
 
 from xigt.codecs import xigtxml
 from xigt import XigtCorpus, Igt, xigtpath as xp
@@ -38,7 +39,8 @@ def make_sortkey(sortkeys):
         try:
             return int(x)
         except ValueError:
-            return x
+            # int() also refuses strings of more than some thousand digits
+            return int(Decimal(x)) if x.isdecimal() else x
     # (each sort key has its own list, so that integers are only ever
     # compared to integers and strings to strings)
     key = lambda x: [list(map(safe_int,
-- 
2.43.0

