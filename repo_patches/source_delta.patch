From f464d6c1c3c1839f5836683787d3a37e8fe64778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 01/49] fix: parent setter must not detach a node when refusing
 to move it to another tree

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..c4aadfb 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -334,10 +334,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From 75a86ecf7bed0fd07804cdbfa4eacccf52165e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 02/49] fix: removing an empty node must drop enhanced
 dependencies on it, not corrupt them

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c4aadfb..1551aae 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1074,7 +1074,7 @@ class EmptyNode(Node):
             return # self may be an already deleted node e.g. if n.remove() called twice
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+                n._deps = [dep for dep in n._deps if dep['parent'] is not self]
 
 @functools.total_ordering
 class OrdTuple:
-- 
2.43.0


From 400114903e398a13c7f1f74c694bed216251b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 03/49] fix: removing an empty node must not renumber empty
 nodes after the following word

---
 udapi/core/node.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1551aae..a0bfdbf 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1065,13 +1065,14 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        # Only the following empty nodes with the same integer part of ord should be shifted.
+        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < int(self._ord) + 1]
+        for empty in to_reorder:
+            empty._ord = round(empty._ord - 0.1, 1)
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n._deps = [dep for dep in n._deps if dep['parent'] is not self]
-- 
2.43.0


From 37fcede691d94c8d24b24d40da4cba820882888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 04/49] fix: raw_deps of a node with an empty list of enhanced
 dependencies is _

---
 udapi/core/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a0bfdbf..53e0017 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -253,6 +253,8 @@ class Node(object):
         #    return self._raw_deps
         if self._deps:
             self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        elif self._deps is not None:
+            self._raw_deps = '_'
         return self._raw_deps
 
     @raw_deps.setter
-- 
2.43.0


From b6a833f9a9a8ca3e18a08b2c0c402e0e39444423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 05/49] fix: removing an empty node must consider also not yet
 deserialized enhanced dependencies

---
 udapi/core/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 53e0017..b8261b8 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1067,6 +1067,10 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
+        # Enhanced dependencies are deserialized lazily, but their serialization refers to empty nodes by ord.
+        for n in self._root.empty_nodes + self._root._descendants:
+            if n._deps is None and n._raw_deps and '.' in n._raw_deps:
+                n.deps  # pylint: disable=pointless-statement
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
-- 
2.43.0


From 618303a804d6568972042f53df51666b79352b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 06/49] fix: creating the tenth and further empty nodes after a
 word

---
 udapi/core/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index b8261b8..394f95c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -466,7 +467,7 @@ class Node(object):
                 if isinstance(new_ord, OrdTuple):
                     new_ord.increase()
                 elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
+                    new_ord = OrdTuple(f'{base_ord}.10')
                 else:
                     new_ord = round(new_ord+0.1, 1)
         new_node._ord = new_ord
@@ -1129,7 +1130,7 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From 0c9fbcd60efe466a9259df3f326604ebf5a0adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 07/49] fix: ords of empty nodes must stay rounded when
 shifting words

---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 394f95c..a7270dd 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -598,7 +598,7 @@ class Node(object):
                 self._ord = reference_ord - 1
                 for en in empty_nodes:
                     if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
+                        en._ord = round(en._ord - 1, 1)
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
@@ -609,7 +609,7 @@ class Node(object):
                     # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
                     # We cannot know whether the caller wanted to place the shifted node before or after them.
                     if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
+                        en._ord = round(en._ord + 1, 1)
             self._parent._children.sort()
             return
 
-- 
2.43.0


From 9eb5c3caf17b5c59073a5a144bad330142453d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 08/49] fix: MWT.address() crashed because root.address is a
 method

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From b90fd7e108fb3d7a2b2c7324fa1a127bbdc91173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 09/49] fix: ud.RemoveMwt skipped every second MWT because of
 changing the list while iterating

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From 3b83f0da076b4ef13f9b49b1a820af491ed51100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 10/49] fix: Bundle.remove must number the remaining bundles
 from 1 as create_bundle does

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..52625da 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -106,7 +106,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From 9f7b84b5b033b9f7d2bcfd3686f27fd84c248a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 11/49] fix: setting bundle_id must not add a slash to sent_id
 of trees with the empty zone

---
 udapi/core/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 52625da..5d78420 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            slashzone = '/' + tree.zone if tree.zone else ''
+            tree._sent_id = bundle_id + slashzone  # pylint: disable=protected-access
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From 7fbfd329c750432964f3109a75b173b635d44216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 12/49] fix: util.SplitSentence must number bundles from 1 as
 create_bundle does

---
 udapi/block/util/splitsentence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..3940765 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 3135d713ac0f3ba0362977fa55f342be2d209583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 13/49] fix: assigning the current zone (e.g. via sent_id) must
 not fail as a duplicate zone

---
 udapi/core/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..f682bb6 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -92,7 +92,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 247ddba2c2c41824db3df9174b71482929fba05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 14/49] fix: steal_nodes must move the multiword tokens of all
 the moved nodes

---
 udapi/core/root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index f682bb6..c7dfa9f 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -292,9 +292,9 @@ class Root(Node):
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
             for node in nodes:
-                if mwt:
+                mwt = node.multiword_token
+                if mwt and mwt.root is old_root:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
-- 
2.43.0


From 22356664f14d6b50463000720c596cff450b4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 15/49] fix: steal_nodes must set the root of multiword tokens
 moved with the whole tree

---
 udapi/core/root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index c7dfa9f..34e2e62 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -288,6 +288,8 @@ class Root(Node):
                 self._children.append(node)
         if whole_tree:
             old_root._descendants = []
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
         else:
-- 
2.43.0


From af17de75c9c4258c39911c54dfbbc8e5f774e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 16/49] fix: steal_nodes must renumber the nodes which stay in
 the old tree

---
 udapi/core/root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 34e2e62..7d20225 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -294,6 +294,8 @@ class Root(Node):
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
+            for (new_ord, node) in enumerate(old_root._descendants, 1):
+                node.ord = new_ord
             for node in nodes:
                 mwt = node.multiword_token
                 if mwt and mwt.root is old_root:
-- 
2.43.0


From 1df50b01ca4d2a9781f3f3e1aec262a0736a5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 17/49] fix: segment.Simple must set numbers of the new bundles

---
 udapi/block/segment/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..01d2faf 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for i, bundle in enumerate(doc.bundles, 1):
+            bundle.number = i
-- 
2.43.0


From 293ff415d316643f9312b8e4d436fe771fa43865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 18/49] fix: fix_cycles must not attach a node to itself

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..0881d43 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -197,8 +197,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From a5cd5f09f52549af7a5e73e6ffdf67986fbc42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 19/49] fix: a negative HEAD must be reported as out of range

---
 udapi/block/read/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0881d43..9f3ac41 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -191,6 +191,8 @@ class Conllu(BaseReader):
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
+                if parents[node_ord] < 0:
+                    raise IndexError
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
-- 
2.43.0


From 510eef12d7c10ef4c084f1ee4a61d040e17d0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 20/49] fix: loading a CoNLL-U file with a missing final (or an
 extra initial) empty line

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 9f3ac41..e23bacc 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -88,7 +88,7 @@ class Conllu(BaseReader):
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
-- 
2.43.0


From a723f8608b342b3da70db1a565a2e70ec88016ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 21/49] fix: max_docs must not lose the last tree nor crash on
 extra empty lines

---
 udapi/block/read/conllu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e23bacc..e9a2527 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -1,4 +1,5 @@
 """"Conllu is a reader block for the CoNLL-U files."""
+import itertools
 import json
 import logging
 import re
@@ -93,17 +94,18 @@ class Conllu(BaseReader):
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
-        for line in self.filehandle:
+        for line in itertools.chain(self.filehandle, ['']):
             line = line.rstrip()
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
         return trees
-- 
2.43.0


From 3b8b884ac005eb593d83f4f2ae476f65a78196a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 22/49] fix: OtherDualDict.clear() must set its own empty
 serialization

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..ace6578 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1058,7 +1058,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From 16e4c919510350fc0dbb8d16503947a8904ffd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 23/49] fix: deleting bridging links without mentions must not
 skip links while iterating

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ace6578..bcfad2c 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -525,7 +525,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
-- 
2.43.0


From 506bd9b189f19b4945a3727c9d4e1f0363a34596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 24/49] fix: assigning a lazily deserialized mapping to itself
 must not lose its attributes

---
 udapi/core/coref.py    | 2 +-
 udapi/core/dualdict.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index bcfad2c..832ecec 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1080,7 +1080,7 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..1b6a649 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -115,7 +115,7 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From 092c649ac9a359a0c42ea78ea0ecce09494e651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 25/49] fix: removing one of ten or more empty nodes after the
 same word

---
 udapi/core/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a7270dd..2159f74 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1078,8 +1078,9 @@ class EmptyNode(Node):
             return # self may be an already deleted node e.g. if n.remove() called twice
         # Only the following empty nodes with the same integer part of ord should be shifted.
         to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < int(self._ord) + 1]
+        free_ord = self._ord
         for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
+            empty._ord, free_ord = free_ord, empty._ord
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n._deps = [dep for dep in n._deps if dep['parent'] is not self]
@@ -1128,6 +1129,9 @@ class OrdTuple:
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
+    def __int__(self):
+        return self._key[0]
+
     def increase(self):
         """Increment the decimal part of this ord."""
         self._key = (self._key[0], self._key[1]+1)
-- 
2.43.0


From ef89eac3f6f70c4f4edcf430cd29b271cb053871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 26/49] fix: a multi-word token range out of the sentence must
 be refused

---
 udapi/block/read/conllu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e9a2527..69a3c98 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -225,7 +225,10 @@ class Conllu(BaseReader):
             except ValueError:
                 logging.warning(f"Wrong MWT range in\n{fields[0]}\n\n{lines}")
                 raise
-            words = nodes[int(range_start):int(range_end) + 1]
+            range_start, range_end = int(range_start), int(range_end)
+            if not 1 <= range_start <= range_end < len(nodes):
+                raise ValueError(f"Multi-word token range {fields[0]} is out of the sentence")
+            words = nodes[range_start:range_end + 1]
             root.create_multiword_token(words, form=fields[1], misc=fields[-1])
 
         return root
-- 
2.43.0


From 7d16d5c90845b02cec5854b651b731c9480e89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:06 +0000
Subject: [PATCH 27/49] fix: reading the tenth and further empty nodes after a
 word must keep their ord

---
 udapi/core/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 2159f74..2c4468f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1055,7 +1055,8 @@ class EmptyNode(Node):
     def ord(self, new_ord):
         """Empty node's ord setter accepts float and str."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
+            # Ords with two-digit decimal part (e.g. 1.10) cannot be stored as float.
+            self._ord = OrdTuple(new_ord) if re.search(r'\.[1-9]\d', new_ord) else float(new_ord)
         elif isinstance(new_ord, float):
             self._ord = new_ord
         else:
-- 
2.43.0


From 3bd1e29ec1344fa42b0cc5d8a51f95cfb481f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 28/49] fix: a comment with a Unicode line separator must be
 written as one line

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..6220224 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,7 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        comment_lines = tree.comment.split('\n')
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From 1a35739c276cf06f6261f3b83bdccbc1406428e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 29/49] fix: writing a tree whose newdoc at the first comment
 line was unset must not crash

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 6220224..7acd104 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -63,7 +63,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines and comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 6cd89648740fb94069026ec6bdd60d96e2238d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 30/49] fix: multi-word tokens with unsorted words were
 repeated in the text

---
 udapi/core/node.py | 2 +-
 udapi/core/root.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 2c4468f..1af2e0c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -864,7 +864,7 @@ class Node(object):
             mwt = node.multiword_token
             if use_mwt and mwt:
                 if node._ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1]._ord
+                    last_mwt_id = max(mwt.words)._ord
                     string += mwt.form
                     if mwt.misc['SpaceAfter'] != 'No':
                         string += ' '
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 7d20225..5110314 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -176,6 +176,7 @@ class Root(Node):
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
         """
+        words = sorted(words)
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
         for w in words:
@@ -253,7 +254,7 @@ class Root(Node):
             mwt = node.multiword_token
             if mwt:
                 if node.ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1].ord
+                    last_mwt_id = max(mwt.words).ord
                     result.append(mwt)
             else:
                 result.append(node)
-- 
2.43.0


From 40d79bfa3d0b06a3237e28f0e399227405d9ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 31/49] fix: util.Split must set numbers and the document of
 the bundles moved to a new document

---
 udapi/block/util/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..e30d93b 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,7 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for i, bundle in enumerate(document.bundles, 1):
+            bundle.number = i
+            bundle._document = document
         self.finished = not self.buffer
-- 
2.43.0


From 0fbc93e6f67eaf3fac169b86e6b126ab8081a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 32/49] fix: process_empty_node must be called on all empty
 nodes even if some are removed meanwhile

---
 udapi/core/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..3c10642 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -120,7 +120,7 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
-- 
2.43.0


From c1ff3af742751812e4ba6a509911c01176ce780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 33/49] fix: assigning sent_id without a zone must keep the
 zone of the tree in its sent_id

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 5110314..881e666 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -58,6 +58,7 @@ class Root(Node):
             self._bundle.bundle_id = parts[0]
             if len(parts) == 2:
                 self.zone = parts[1]
+            sent_id = parts[0] + ('/' + self.zone if self.zone else '')
         self._sent_id = sent_id
 
     def address(self):
-- 
2.43.0


From 1d0cb2574b1883e66a321a19ffacccb063a72c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 34/49] fix: udpipe.Base must not multiply bundles with more
 zones

---
 udapi/block/udpipe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..a3b2972 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -154,8 +154,8 @@ class Base(Block):
         old_bundles = doc.bundles
         new_bundles = []
         for bundle in old_bundles:
+            new_bundles.append(bundle)
             for tree in bundle:
-                new_bundles.append(bundle)
                 if self._should_process_tree(tree):
                     if self.delete_nodes:
                         for subroot in tree.children:
-- 
2.43.0


From 903bdfa2d25eb7765d55882cbda943492a997592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 35/49] fix: udpipe.Base must set numbers of the new bundles

---
 udapi/block/udpipe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index a3b2972..7057eec 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -187,6 +187,8 @@ class Base(Block):
                     else:
                         raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
         doc.bundles = new_bundles
+        for i, bundle in enumerate(doc.bundles, 1):
+            bundle.number = i
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
-- 
2.43.0


From ba9991f48a68d18efb4157e902d5af5cc10b50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 36/49] fix: util.JoinSentence with sent_id must remember the
 previous tree

---
 udapi/block/util/joinsentence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..3b084ba 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -75,3 +75,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From 814e835935ea204e4cea5753a257a11fd7995194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 37/49] fix: spans with the tenth and further empty nodes after
 a word

---
 udapi/core/coref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 832ecec..352da9b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -917,14 +917,20 @@ def store_coref_to_misc(doc):
                 strs = first_word.misc['SplitAnte'] + ',' + strs
             first_word.misc['SplitAnte'] = strs
 
+def _ord_key(node_ord):
+    """Convert an ord (e.g. 1.10, which must not be confused with 1.1) to a tuple of integers."""
+    major, _, minor = str(node_ord).partition('.')
+    return int(major), int(minor or 0)
+
+
 def span_to_nodes(root, span):
     ranges = []
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _ord_key(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_ord_key(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
@@ -938,7 +944,7 @@ def span_to_nodes(root, span):
                 return True
         return False
 
-    return [w for w in root.descendants_and_empty if _num_in_ranges(w.ord)]
+    return [w for w in root.descendants_and_empty if _num_in_ranges(_ord_key(w.ord))]
 
 
 def nodes_to_span(nodes):
-- 
2.43.0


From 387dcabe5be9dfba44c894a11c0b9ffe59b31d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 38/49] fix: a tree without sent_id must not get the sent_id of
 the previous bundle when loading

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..0a682f6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -248,6 +250,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From f7c4e6a8d606ae4a50ae5afec4225420b54915fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 39/49] fix: trees with the same sent_id must share a bundle
 also after a document boundary

---
 udapi/core/basereader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 0a682f6..32ca5f0 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -198,6 +198,8 @@ class BaseReader(Block):
                     bundle = document.create_bundle()
                     if root._sent_id is not None:
                         bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
                 if root.newdoc:
                     self._docs_loaded += 1
-- 
2.43.0


From 04c7d6b428cc9216432688510b8045f8bef1a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 40/49] fix: a document with only one tree must not be joined
 with the next file without merge=1

---
 udapi/core/basereader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 32ca5f0..66a8e4d 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -220,7 +220,7 @@ class BaseReader(Block):
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
-                    if (trees_loaded == 0 or self.merge) and self.files.has_next_file():
+                    if ((trees_loaded == 0 and not bundle) or self.merge) and self.files.has_next_file():
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-- 
2.43.0


From 1eea429f76b8d67a4dad1d82c4ca5d85bd7ff985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 41/49] fix: max_docs together with bundles_per_doc loaded a
 wrong number of documents

---
 udapi/core/basereader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 66a8e4d..136bf69 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -201,10 +201,9 @@ class BaseReader(Block):
                 if root._sent_id is not None:
                     last_bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                # This document has been already counted in self._docs_loaded (before buffering its first tree).
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -234,7 +233,7 @@ class BaseReader(Block):
                     # e.g. when using files='!*.conllu' or bundles_per_doc, in which case we count the Udapi documents
                     # so even if the first tree in udapi.Document does not have newdoc, we count it as a new document.
                     # The cases where newdoc is used are checked further below.
-                    if not root.newdoc:
+                    if not root.newdoc and not bundle:
                         if self.max_docs and self._docs_loaded >= self.max_docs:
                             self.finished = True
                             return
@@ -265,6 +264,7 @@ class BaseReader(Block):
                         return
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
+                    self._docs_loaded += 1
                     if bundle and self.split_docs:
                         self._buffer = root
                         if orig_bundles:
@@ -272,11 +272,15 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        if not root.newdoc:
+                            if self.max_docs and self._docs_loaded >= self.max_docs:
+                                self.finished = True
+                                return
+                            self._docs_loaded += 1
                         self._buffer = root
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
-- 
2.43.0


From 59f7ce697847ff717011d8caab7ae63e511ce461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 42/49] fix: max_docs must count documents without newdoc also
 in the fast loading

---
 udapi/core/basereader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 136bf69..f430efd 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -138,7 +138,8 @@ class BaseReader(Block):
             for root in trees:
                 if root is None:
                     continue
-                if root.newdoc:
+                # Similarly as in process_document(), the first tree of a document is counted even without newdoc.
+                if root.newdoc or not document.bundles:
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return True
-- 
2.43.0


From 9c2e58aa806520a9f1331804a6fc1bd44fbae986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:57 +0000
Subject: [PATCH 43/49] fix: max_docs with merge must not continue with the
 next file

---
 udapi/block/read/conllu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 69a3c98..0c3c109 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -101,11 +101,13 @@ class Conllu(BaseReader):
                 lines = []
                 if tree is None:
                     continue
+                trees.append(tree)
                 if tree.newdoc:
+                    # The first tree over the limit is returned as well,
+                    # so that udapi.core.basereader knows the limit was reached (and skips this tree).
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                trees.append(tree)
             else:
                 lines.append(line)
         return trees
-- 
2.43.0


From 9e495f0f6663e7f8e8f007053bcbe3dfa78486a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 44/49] fix: write.TextModeTrees with hints=0 must not
 interrupt horizontal edges

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..8987fc1 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪┡┢├') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢├')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From f5920018d95e33618c46744763033b7442973a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 45/49] fix: mention.other attributes named e.g. head or etype
 must not be lost when storing

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 352da9b..5a1b00c 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -784,7 +784,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From ab5a49866aedfdf7911261a7b5804580e3ba73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 46/49] fix: loading global.Entity with another field before
 other

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 5a1b00c..35b17bd 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -664,7 +664,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k,v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From 85fb2d415105fa4d7df6033cd79c2eebb2e2f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 47/49] fix: storing SplitAnte must check all antecedents even
 if some are deleted meanwhile

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 35b17bd..0f1e91a 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -901,7 +901,7 @@ def store_coref_to_misc(doc):
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
-- 
2.43.0


From 3707091034bf6d14cd0206f6e73e71edfff533ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 48/49] fix: words could not be removed or shifted in trees
 with 10 or more empty nodes after one word

---
 udapi/core/node.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1af2e0c..1575c2a 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -547,10 +547,10 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
+                        new_ord = _move_empty_ord(empty._ord, -1)
                         if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
+                            new_ord = _next_empty_ord(last_ord)
+                        empty._ord = new_ord
                     last_ord = empty._ord
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
@@ -577,10 +577,10 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+                    new_ord = _move_empty_ord(empty._ord, prev_nonempty._ord - int(empty._ord))
+                    if new_ord <= last_ord:
+                        new_ord = _next_empty_ord(last_ord)
+                    last_ord = empty._ord = new_ord
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
@@ -598,7 +598,7 @@ class Node(object):
                 self._ord = reference_ord - 1
                 for en in empty_nodes:
                     if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord = round(en._ord - 1, 1)
+                        en._ord = _move_empty_ord(en._ord, -1)
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
@@ -609,7 +609,7 @@ class Node(object):
                     # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
                     # We cannot know whether the caller wanted to place the shifted node before or after them.
                     if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord = round(en._ord + 1, 1)
+                        en._ord = _move_empty_ord(en._ord, 1)
             self._parent._children.sort()
             return
 
@@ -1133,11 +1133,31 @@ class OrdTuple:
     def __int__(self):
         return self._key[0]
 
+    @property
+    def minor(self):
+        """The decimal part of this ord."""
+        return self._key[1]
+
     def increase(self):
         """Increment the decimal part of this ord."""
         self._key = (self._key[0], self._key[1]+1)
 
 
+def _move_empty_ord(empty_ord, distance):
+    """Return the ord of an empty node with its integer part moved by a given (integer) distance."""
+    if isinstance(empty_ord, OrdTuple):
+        return OrdTuple(f'{int(empty_ord) + distance}.{empty_ord.minor}')
+    return round(empty_ord + distance, 1)
+
+
+def _next_empty_ord(empty_ord):
+    """Return the next ord with the same integer part, e.g. 1.2 for 1.1 or 1.10 for 1.9."""
+    if isinstance(empty_ord, OrdTuple):
+        return OrdTuple(f'{int(empty_ord)}.{empty_ord.minor + 1}')
+    next_ord = round(empty_ord + 0.1, 1)
+    return next_ord if int(next_ord) == int(empty_ord) else OrdTuple(f'{int(empty_ord)}.10')
+
+
 # Implementation note on ListOfNodes
 # We could inherit from collections.abc.Sequence, store the list in self._data
 # and implement __getitem__ and __len__ by delegating it to self._data.
-- 
2.43.0


From 1b1a1a5728b653acdfe4217f079e0d4fa1e96f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:49 +0000
Subject: [PATCH 49/49] fix: failed deserialization of enhanced deps must not
 leave a truncated list

---
 udapi/core/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1575c2a..320e854 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -277,9 +277,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -296,7 +297,10 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+
+            # Store the list only if all the dependencies were deserialized (without raising an exception).
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0

