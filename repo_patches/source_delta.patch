From bb4870b0106f687d63bcd8840bd80178579d11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 001/150] fix: EmptyNode.remove() must keep deps a list of
 dicts

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..1a39f15 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1074,7 +1074,7 @@ class EmptyNode(Node):
             return # self may be an already deleted node e.g. if n.remove() called twice
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+                n._deps = [dep for dep in n._deps if dep['parent'] != self]
 
 @functools.total_ordering
 class OrdTuple:
-- 
2.43.0


From 10cfbd430fe0d3e23fbf2dea3a41917c51e5e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 002/150] fix: keep raw_deps in sync when the last enhanced
 dependency is deleted

---
 udapi/core/node.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1a39f15..bacc8dd 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -251,8 +251,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
@@ -274,9 +274,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -293,7 +294,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0


From 68fd2455bbd2be6e6d8b6695c693d2bfc61d1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 003/150] fix: rejected cross-tree parent assignment must not
 detach the node

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index bacc8dd..c8c0d34 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -336,10 +336,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From d01d0424cdaa2fc5e55976d231b67bac11109a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 004/150] fix: MWT.address() raised TypeError

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From d08e3008da4e988d2ecb62b28313cb3d3bed3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 005/150] fix: do not interpret comments such as '#
 sent_id_orig = x' as sent_id

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..e81144e 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From ef49c9d9279476793f4ae26fa85da305f469f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 006/150] fix: keep ords of empty nodes unique and sorted when
 inserting, removing and shifting nodes (also for x.10)

---
 udapi/core/node.py | 127 +++++++++++++++++++++++----------------------
 udapi/core/root.py |  23 +++++++-
 2 files changed, 87 insertions(+), 63 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c8c0d34..d6a46c9 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -457,19 +458,22 @@ class Node(object):
         new_node.deps = [{'parent': self, 'deprel': deprel}]
         # self.enh_children.append(new_node) TODO
         # new_node.enh_parents.append(self) TODO
-        base_ord = self._ord if after else self._ord - 1
-        new_ord = base_ord + 0.1
+        major, minor = ord_to_key(self._ord)
+        if after:
+            minor += 1
+        elif minor == 0:
+            major, minor = major - 1, 1
+        else:
+            # Insert the new node immediately before the empty node self,
+            # i.e. self and the following empty nodes must be shifted by 0.1.
+            for empty in self._root.empty_nodes:
+                e_major, e_minor = ord_to_key(empty._ord)
+                if e_major == major and e_minor >= minor:
+                    empty._ord = key_to_ord(e_major, e_minor + 1)
         for empty in self._root.empty_nodes:
-            if empty._ord > new_ord:
-                break
-            if empty._ord == new_ord:
-                if isinstance(new_ord, OrdTuple):
-                    new_ord.increase()
-                elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
-                else:
-                    new_ord = round(new_ord+0.1, 1)
-        new_node._ord = new_ord
+            if ord_to_key(empty._ord) == (major, minor):
+                minor += 1
+        new_node._ord = key_to_ord(major, minor)
         if not self._root.empty_nodes or new_node > self._root.empty_nodes[-1]:
             self._root.empty_nodes.append(new_node)
         else:
@@ -517,6 +521,9 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
+        rehang = children is not None and children.startswith('rehang')
+        to_remove = [self] if rehang else self.descendants(add_self=True)
+        empty_anchors = self._root._get_empty_anchors(to_remove)
         self._parent._children.remove(self)
 
         # If there are any children, do the action specified in the "children" parameter.
@@ -543,48 +550,35 @@ class Node(object):
             else:
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
-                    last_ord = empty._ord
         else:
-            # Remember the position of empty nodes, so we can reorder them as well.
-            empty_follows = None
-            if self._root.empty_nodes:
-                will_be_removed = self if children and children.startswith('rehang') else self.descendants(add_self=1)
-                prev_nonempty = self._root
-                empty_follows = {}
-                for node in self._root.descendants_and_empty:
-                    if node.is_empty():
-                        empty_follows[node] = prev_nonempty
-                    elif node not in will_be_removed:
-                        prev_nonempty = node
-
             # TODO nodes_to_remove = self.unordered_descendants()
             # and mark all nodes as deleted, remove them from MWT and coref mentions
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
-            # Decrease ord of empty nodes (keep their fractional part)
-            # Make sure that e.g. after deleting node with ord=2
-            # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
-            if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+        # Decrease ord of empty nodes. Make sure that e.g. after deleting node with ord=2
+        # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
+        self._root._renumber_empty_nodes(empty_anchors)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
-        """Internal method for changing word order."""
+        """Internal method for changing word order.
+
+        The shifted nodes are placed after all the empty nodes which precede `reference_ord`.
+        Empty nodes keep their position relative to the words which are not being shifted.
+        """
+        root = self._root
+        if not root.empty_nodes:
+            self._shift_words_before_ord(reference_ord, without_children)
+            return
+        orig_order = list(root._descendants)
+        anchors = root._get_empty_anchors([self] if without_children else self.descendants(add_self=True))
+        self._shift_words_before_ord(reference_ord, without_children)
+        if root._descendants != orig_order:
+            root._renumber_empty_nodes(anchors)
+
+    def _shift_words_before_ord(self, reference_ord, without_children=False):
+        """Internal method for changing word order of non-empty nodes."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -595,25 +589,15 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
             self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
         nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
@@ -1052,10 +1036,11 @@ class EmptyNode(Node):
 
     @ord.setter
     def ord(self, new_ord):
-        """Empty node's ord setter accepts float and str."""
+        """Empty node's ord setter accepts float, str and OrdTuple (needed for x.10 etc.)."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            match = re.match(r'(\d+)\.(\d+)$', new_ord)
+            self._ord = key_to_ord(int(match.group(1)), int(match.group(2))) if match else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1067,13 +1052,15 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        major, minor = ord_to_key(self._ord)
+        for empty in self._root.empty_nodes:
+            e_major, e_minor = ord_to_key(empty._ord)
+            if e_major == major and e_minor > minor:
+                empty._ord = key_to_ord(e_major, e_minor - 1)
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n._deps = [dep for dep in n._deps if dep['parent'] != self]
@@ -1102,6 +1089,9 @@ class OrdTuple:
     def __repr__(self):
         return f"{self._key[0]}.{self._key[1]}"
 
+    def __hash__(self):
+        return hash(self._key)
+
     def __eq__(self, other):
         if isinstance(other, int):
             return False
@@ -1124,7 +1114,20 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
+
+
+def ord_to_key(node_ord):
+    """Convert an ord (int, float or OrdTuple) to a tuple (integer part, decimal part), e.g. 1.2 to (1, 2)."""
+    if isinstance(node_ord, OrdTuple):
+        return node_ord._key
+    major = int(node_ord)
+    return major, round(10 * (node_ord - major))
+
+
+def key_to_ord(major, minor):
+    """Convert the integer and decimal part to an ord of an empty node, e.g. (1, 2) to 1.2."""
+    return round(major + minor / 10, 1) if minor < 10 else OrdTuple(f"{major}.{minor}")
 
 
 # Implementation note on ListOfNodes
diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..ec5e997 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -1,7 +1,7 @@
 """Root class represents the technical root node in each tree."""
 import logging
 
-from udapi.core.node import Node, EmptyNode, ListOfNodes
+from udapi.core.node import Node, EmptyNode, ListOfNodes, key_to_ord
 from udapi.core.mwt import MWT
 
 # 7 instance attributes is too low (CoNLL-U has 10 columns)
@@ -263,6 +263,27 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _get_empty_anchors(self, excluded_nodes):
+        """Return a list of pairs (empty node, the closest preceding word which is not in excluded_nodes)."""
+        if not self.empty_nodes:
+            return []
+        excluded, anchor, result = set(excluded_nodes), self, []
+        for node in self.descendants_and_empty:
+            if node.is_empty():
+                result.append((node, anchor))
+            elif node not in excluded:
+                anchor = node
+        return result
+
+    def _renumber_empty_nodes(self, anchors):
+        """Set ords of empty nodes according to the result of `_get_empty_anchors`."""
+        last_major, minor = None, 0
+        for empty, anchor in anchors:
+            minor = minor + 1 if anchor.ord == last_major else 1
+            last_major = anchor.ord
+            empty.ord = key_to_ord(last_major, minor)
+        self.empty_nodes.sort()
+
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
         old_root = nodes[0].root
-- 
2.43.0


From 962964b0a1986759016eb3413416ccf1fa05b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 007/150] fix: Node.remove() must remove the deleted words from
 multi-word tokens

---
 udapi/core/node.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index d6a46c9..a805dd1 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -551,8 +551,7 @@ class Node(object):
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
         else:
-            # TODO nodes_to_remove = self.unordered_descendants()
-            # and mark all nodes as deleted, remove them from MWT and coref mentions
+            # TODO mark all nodes as deleted and remove them from coref mentions
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
@@ -560,6 +559,15 @@ class Node(object):
         # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
         self._root._renumber_empty_nodes(empty_anchors)
 
+        # Removed nodes are no longer part of any multi-word token.
+        for node in to_remove:
+            mwt = node._mwt
+            if mwt is not None:
+                node._mwt = None
+                mwt.words = [w for w in mwt.words if w is not node]
+                if not mwt.words:
+                    mwt.remove()
+
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order.
 
-- 
2.43.0


From 7687f74c396eea1bed1738a94862059744c76228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 008/150] fix: write.Conllu must not split comments at Unicode
 line separators

---
 udapi/block/write/conllu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..5906eda 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,8 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # Do not use splitlines() because comments may contain e.g. U+2028, which is not a line separator in CoNLL-U.
+        comment_lines = tree.comment.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From 967ae4e1fdff3f47b43dcdf6c13bd09cd5f58ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 009/150] fix: deleting a missing key of DualDict by assignment
 must keep the string verbatim

---
 udapi/core/dualdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..2269932 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -65,9 +65,9 @@ class DualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is not None and value != '':
             self._dict[key] = value
+            self._string = None
         else:
             self.__delitem__(key)
 
-- 
2.43.0


From 6a44847fca81977c6f57967190e9486d5fbebe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 010/150] fix: read.Conllu must not lose sentences around extra
 or missing empty lines

---
 udapi/block/read/conllu.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e81144e..3b524ab 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -87,8 +87,9 @@ class Conllu(BaseReader):
             # It is obvious how to parse such files and re.split(r'\n\n+', s) is only twice as slow
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
-            return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+            trees = [self.read_tree_from_lines(s.split('\n')) for s in
+                     re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
+            return [tree for tree in trees if tree is not None]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
@@ -98,14 +99,19 @@ class Conllu(BaseReader):
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
+        # The last tree may be missing the final empty line.
+        tree = self.read_tree_from_lines(lines)
+        if tree is not None:
+            trees.append(tree)
         return trees
 
     def read_tree(self):
@@ -114,9 +120,13 @@ class Conllu(BaseReader):
         lines = []
         for line in self.filehandle:
             line = line.rstrip()
-            if line == '':
-                break
-            lines.append(line)
+            if line != '':
+                lines.append(line)
+                continue
+            tree = self.read_tree_from_lines(lines)
+            if tree is not None:
+                return tree
+            lines = []
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From 48522d3989d6f0fd251e30ab3d5c9abe03029b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 011/150] fix: read.Conllu fix_cycles=1 must attach a word
 attached to itself to the root

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 3b524ab..39b90d8 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -207,8 +207,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From 8b27306918ed6daca7350291e8f64357bd184ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 012/150] fix: read.Conllu must report negative heads and word
 IDs which are out of order

---
 udapi/block/read/conllu.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 39b90d8..57f9a83 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -169,6 +169,8 @@ class Conllu(BaseReader):
                             xpos=fields[4], feats=fields[5], deprel=fields[7], misc=fields[9])
                 root._descendants.append(node)
                 node._ord = int(fields[0])
+                if node._ord != len(nodes):
+                    raise ValueError("Word ID %s found, but %d expected in %r" % (fields[0], len(nodes), line))
                 if fields[8] != '_':
                     node.raw_deps = fields[8]
                 try:
@@ -200,10 +202,9 @@ class Conllu(BaseReader):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-- 
2.43.0


From 3bf0bcb7be21561fb027d755cf9908921afffcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 013/150] fix: a tree without sent_id must not inherit the id
 of the previous bundle

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..0a682f6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -248,6 +250,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From 96ca168002eb4115cc2353aa110f521a959e73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 014/150] fix: look-ahead buffer and max_docs of BaseReader
 must not change document boundaries

---
 udapi/core/basereader.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 0a682f6..8365a3f 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -138,7 +138,7 @@ class BaseReader(Block):
             for root in trees:
                 if root is None:
                     continue
-                if root.newdoc:
+                if root.newdoc or not document.bundles:
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return True
@@ -172,6 +172,8 @@ class BaseReader(Block):
                 self.finished = True
                 return True
             if not self.merge:
+                if self.max_docs and self._docs_loaded >= self.max_docs:
+                    self.finished = True
                 return True
         return True
 
@@ -187,6 +189,7 @@ class BaseReader(Block):
                 return
             orig_bundles = document.bundles[:]
             bundle, last_bundle_id = None, ''
+            trees_loaded = 0
 
             # There may be a tree left in the buffer when reading the last doc.
             if self._buffer:
@@ -199,10 +202,12 @@ class BaseReader(Block):
                     if root._sent_id is not None:
                         bundle.bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                trees_loaded = 1
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
+                self._docs_loaded += 1
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -214,7 +219,6 @@ class BaseReader(Block):
                     return
                 logging.info(f"Reading {self.files.filename}")
 
-            trees_loaded = 0
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
@@ -222,7 +226,8 @@ class BaseReader(Block):
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-                    self.finished = not self.files.has_next_file()
+                    self.finished = not self.files.has_next_file() or (
+                        self.max_docs and self._docs_loaded >= self.max_docs)
                     break
                 if trees_loaded == 0:
                     document.meta['loaded_from'] = self.filename
@@ -270,11 +275,13 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        if self.max_docs and self._docs_loaded >= self.max_docs:
+                            self.finished = True
+                            return
                         self._buffer = root
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
@@ -292,6 +299,8 @@ class BaseReader(Block):
                             bundle.bundle_id = last_bundle_id
 
                 bundle.add_tree(root)
+                if root.newdoc:
+                    self._docs_loaded += 1
 
                 # If bundles_per_doc is set and we have read the specified number of bundles,
                 # we should end the current document and return.
-- 
2.43.0


From 72c5817e6b176db96aa85878044dff6a6fb04780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 015/150] fix: write.Conllu print_text=0 must not print the
 $TEXT placeholder

---
 udapi/block/write/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 5906eda..0d843b2 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -39,6 +39,8 @@ class Conllu(BaseWriter):
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
                         comment_lines[i] = ' text = ' + tree.text.replace('\n', '').replace('\r', '').rstrip()
+                else:
+                    comment_lines[i] = None
             elif c_line == '$NEWDOC':
                 i_newdoc = i
                 if self.print_sent_id and tree.newdoc:
-- 
2.43.0


From 89005ae007104ebc849b09518df843fac108726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 016/150] fix: keep FEATS of multi-word tokens (e.g. Typo=Yes)
 when reading and writing CoNLL-U

---
 udapi/block/read/conllu.py  |  2 +-
 udapi/block/write/conllu.py |  4 +++-
 udapi/core/mwt.py           | 23 +++++++++++++++++++++--
 udapi/core/root.py          |  5 +++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 57f9a83..1d3f374 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -233,6 +233,6 @@ class Conllu(BaseReader):
                 logging.warning(f"Wrong MWT range in\n{fields[0]}\n\n{lines}")
                 raise
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=fields[1], feats=fields[5], misc=fields[-1])
 
         return root
diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 0d843b2..4a7c4f3 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -120,7 +120,9 @@ class Conllu(BaseWriter):
             if mwt and node._ord > last_mwt_id:
                 print('\t'.join((mwt.ord_range,
                                  '_' if mwt.form is None else mwt.form,
-                                 '_\t_\t_\t_\t_\t_\t_',
+                                 '_\t_\t_',
+                                 '_' if mwt._feats is None else str(mwt.feats),
+                                 '_\t_\t_',
                                  '_' if mwt._misc is None else str(mwt.misc))))
                 last_mwt_id = mwt.words[-1]._ord
 
diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 95dc093..a22cdac 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -1,19 +1,38 @@
 """MWT class represents a multi-word token."""
 from udapi.core.dualdict import DualDict
+from udapi.core.feats import Feats
 
 
 class MWT(object):
     """Class for representing multi-word tokens in UD trees."""
-    __slots__ = ['words', 'form', '_misc', 'root']
+    __slots__ = ['words', 'form', '_feats', '_misc', 'root']
 
-    def __init__(self, words=None, form=None, misc=None, root=None):
+    def __init__(self, words=None, form=None, misc=None, root=None, feats=None):
         self.words = words if words is not None else []
         self.form = form
+        self._feats = Feats(feats) if feats and feats != '_' else None
         self._misc = DualDict(misc) if misc and misc != '_' else None
         self.root = root
         for word in self.words:
             word._mwt = self  # pylint: disable=W0212
 
+    @property
+    def feats(self):
+        """Property for morphological features stored as a `Feats` object.
+
+        See `udapi.core.node.Node` for details.
+        """
+        if self._feats is None:
+            self._feats = Feats()
+        return self._feats
+
+    @feats.setter
+    def feats(self, value):
+        if self._feats is None:
+            self._feats = Feats(value)
+        else:
+            self._feats.set_mapping(value)
+
     @property
     def misc(self):
         """Property for MISC attributes stored as a `DualDict` object.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index ec5e997..c205613 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -167,7 +167,7 @@ class Root(Node):
         return new_node
 
     # TODO document whether misc is a string or dict or it can be both
-    def create_multiword_token(self, words=None, form=None, misc=None):
+    def create_multiword_token(self, words=None, form=None, misc=None, feats=None):
         """Create and return a new multi-word token (MWT) in this tree.
 
         The new MWT can be optionally initialized using the following args.
@@ -175,6 +175,7 @@ class Root(Node):
         words: a list of nodes which are part of the new MWT
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
+        feats: feats attribute of the new MWT (CoNLL-U allows e.g. Typo=Yes)
         """
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
@@ -182,7 +183,7 @@ class Root(Node):
             if w.multiword_token:
                 w.multiword_token.remove()
         # Now, create the new MWT.
-        mwt = MWT(words, form, misc, root=self)
+        mwt = MWT(words, form, misc, root=self, feats=feats)
         self._mwts.append(mwt)
         if words[-1].misc["SpaceAfter"] == "No":
             mwt.misc["SpaceAfter"] = "No"
-- 
2.43.0


From eabf81db63324cad79962256c8d9924f300e58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 017/150] fix: setting bundle_id must not add a slash to the
 ids of trees with an empty zone

---
 udapi/core/bundle.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..592f3ee 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,8 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            tree._sent_id = bundle_id + ('/' + tree.zone if tree.zone else '')  # pylint: disable=protected-access
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From 44f8fe05469fd0212491fe98edcf8d9c6c331471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 018/150] fix: bundle numbers must stay 1-based after
 Bundle.remove() and util.SplitSentence

---
 udapi/block/util/splitsentence.py | 4 ++--
 udapi/core/bundle.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..3940765 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 592f3ee..c5c9ad4 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -103,7 +103,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From dbb5bf12bd688990dd08b2b7c974dff091733a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 019/150] fix: setting sent_id with the current or an invalid
 zone

---
 udapi/core/root.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index c205613..614bbaa 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,10 +55,12 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
             if len(parts) == 2:
                 self.zone = parts[1]
-        self._sent_id = sent_id
+            # This updates also the ids of all trees in the bundle.
+            self._bundle.bundle_id = parts[0]
+        else:
+            self._sent_id = sent_id
 
     def address(self):
         """Full (document-wide) id of the root.
@@ -92,7 +94,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 3f4f78ad156af9a76af5744824c42aaa3266ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 020/150] fix: Root.flatten() must set all deprels as
 documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 614bbaa..13ca443 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -337,4 +337,5 @@ class Root(Node):
         self._children = self._descendants[:]
         for node in self._children:
             node._parent = self
+            node.deprel = deprel
             node._children.clear()
-- 
2.43.0


From 2d53feeb1c7c51a4108816bb0ccc0ef6c445b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 021/150] fix: Root.steal_nodes() must move all multi-word
 tokens and renumber the old tree

---
 udapi/core/root.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 13ca443..6a56fa8 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -289,12 +289,15 @@ class Root(Node):
 
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
+        if not nodes:
+            return
         old_root = nodes[0].root
         for node in nodes[1:]:
             if node.root != old_root:
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
         nodes = sorted(nodes)
         whole_tree = nodes == old_root.descendants
+        empty_anchors = old_root._get_empty_anchors(nodes)
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
         for node in nodes:
@@ -310,18 +313,21 @@ class Root(Node):
                 node.parent._children = [n for n in node.parent._children if n != node]
                 node._parent = self
                 self._children.append(node)
-        if whole_tree:
-            old_root._descendants = []
-            self._mwts += old_root.multiword_tokens
-            old_root.multiword_tokens = []
-        else:
-            old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
-            for node in nodes:
-                if mwt:
-                    words = [w for w in mwt.words if w in nodes]
-                    mwt.remove()
-                    self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+        # Move also multi-word tokens. If only some of their words are moved, the token is moved with them.
+        for node in nodes:
+            mwt = node._mwt
+            if mwt is not None and mwt.root is not self:
+                old_root.multiword_tokens.remove(mwt)
+                mwt.root = self
+                self._mwts.append(mwt)
+                for word in mwt.words:
+                    if word not in nodes:
+                        word._mwt = None
+                mwt.words = [w for w in mwt.words if w in nodes]
+        old_root._descendants = [n for n in old_root._descendants if n not in nodes]
+        for old_ord, node in enumerate(old_root._descendants, 1):
+            node.ord = old_ord
+        old_root._renumber_empty_nodes(empty_anchors)
         self._descendants += nodes
         # pylint: enable=protected-access
 
-- 
2.43.0


From 8f91015ee7e88c72af6bba893b8680c44d8818ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 022/150] fix: util.SplitSentence with misc_value must not
 split before the first word

---
 udapi/block/util/splitsentence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 3940765..1f1a206 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -52,7 +52,7 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value in (None, n.misc[self.misc_name])]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
-- 
2.43.0


From 257681544512e20e8b1fd8f55cbaa1aa2a469470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 023/150] fix: find_minimal_common_treelet stopped before all
 components were joined

---
 udapi/core/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a805dd1..7254e95 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1219,10 +1219,11 @@ def find_minimal_common_treelet(*args):
     # For unsure members we need to mark from which of its children
     # we climbed to it (`in_treelet[paren.ord] = the_child`).
     # In `new_nodes` dict, we note which nodes were tentatively added to the treelet.
-    # If we climb up to the root of the whole tree, we save the root in `highest`.
+    # If we climb up to the root of the whole tree, we save the root in `highest`
+    # and continue with the remaining components until they are merged as well.
     new_nodes = {}
     highest = None
-    while len(nodes) > 1:
+    while len(nodes) > (1 if highest is None else 0):
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-- 
2.43.0


From 5cfca34164765df3f0cb00c1f220ef72b00cdae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 024/150] fix: calling a list of nodes with add_self=True must
 not change the list

---
 udapi/core/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 7254e95..1ce53a5 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1179,14 +1179,14 @@ class ListOfNodes(list):
 
     def __call__(self, add_self=False, following_only=False, preceding_only=False):
         """Returns a subset of nodes contained in this list as specified by the args."""
+        nodes = self
         if add_self:
-            self.append(self.origin)
-            self.sort()
+            nodes = ListOfNodes(sorted(self + [self.origin]), origin=self.origin)
         if preceding_only:
-            return [x for x in self if x._ord <= self.origin._ord]
+            return [x for x in nodes if x._ord <= self.origin._ord]
         if following_only:
-            return [x for x in self if x._ord >= self.origin._ord]
-        return self
+            return [x for x in nodes if x._ord >= self.origin._ord]
+        return nodes
 
 
 def find_minimal_common_treelet(*args):
-- 
2.43.0


From 2d58f3b52166d3f136ad3f155d71ba8eb98727aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 025/150] fix: removing a word must delete enhanced
 dependencies pointing to it

---
 udapi/core/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1ce53a5..6aa9aaa 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -559,6 +559,12 @@ class Node(object):
         # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
         self._root._renumber_empty_nodes(empty_anchors)
 
+        # Delete enhanced dependencies pointing to the removed nodes (cf. EmptyNode.remove()).
+        removed = set(to_remove)
+        for node in self._root.empty_nodes + self._root._descendants:
+            if node._deps and any(dep['parent'] in removed for dep in node._deps):
+                node._deps = [dep for dep in node._deps if dep['parent'] not in removed]
+
         # Removed nodes are no longer part of any multi-word token.
         for node in to_remove:
             mwt = node._mwt
-- 
2.43.0


From 3312866a03b49c7b9e626b47f7780c14c9fbca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 026/150] fix: print each multi-word token once also when its
 words were reordered

---
 udapi/core/node.py | 2 +-
 udapi/core/root.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 6aa9aaa..02b7189 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -861,7 +861,7 @@ class Node(object):
             mwt = node.multiword_token
             if use_mwt and mwt:
                 if node._ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1]._ord
+                    last_mwt_id = max(w._ord for w in mwt.words)
                     string += mwt.form
                     if mwt.misc['SpaceAfter'] != 'No':
                         string += ' '
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 6a56fa8..4699554 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -181,6 +181,7 @@ class Root(Node):
         """
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
+        words = sorted(words)
         for w in words:
             if w.multiword_token:
                 w.multiword_token.remove()
@@ -256,7 +257,7 @@ class Root(Node):
             mwt = node.multiword_token
             if mwt:
                 if node.ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1].ord
+                    last_mwt_id = max(w.ord for w in mwt.words)
                     result.append(mwt)
             else:
                 result.append(node)
-- 
2.43.0


From e1a97b3a94d617157553edd90e91e51ca1bedf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 027/150] fix: compare FEATS and MISC with strings as
 documented

---
 udapi/core/dualdict.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index 2269932..9a0209b 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -91,6 +91,11 @@ class DualDict(collections.abc.MutableMapping):
         self._deserialize_if_empty()
         return self._dict.__contains__(key)
 
+    def __eq__(self, other):
+        if isinstance(other, str):
+            return str(self) == other
+        return super().__eq__(other)
+
     def clear(self):
         self._string = '_'
         self._dict.clear()
-- 
2.43.0


From faa6515d2ebe5f26195efbf42232d593542de60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 028/150] fix: clearing OtherDualDict and deleting its missing
 keys

---
 udapi/core/coref.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..1a57601 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1030,12 +1030,13 @@ class OtherDualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is None or value == '':
             self.__delitem__(key)
         else:
-            value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            if isinstance(value, str):
+                value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
             self._dict[key] = value
+            self._string = None
 
     def __delitem__(self, key):
         self._deserialize_if_empty()
@@ -1058,7 +1059,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From 02f37418d1cb1a9c352e6f640b90947d629a3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 029/150] fix: a zone name must not end with a newline

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index c5c9ad4..936a08e 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -75,7 +75,7 @@ class Bundle(object):
 
     def check_zone(self, new_zone):
         """Raise an exception if the zone is invalid or already exists."""
-        if not VALID_ZONE_REGEX.match(new_zone):
+        if not VALID_ZONE_REGEX.fullmatch(new_zone):
             raise ValueError("'{}' is not a valid zone name ({})".format(
                 new_zone, VALID_ZONE_REGEX.pattern))
         if new_zone == 'all':
-- 
2.43.0


From 20691879975ff26feeb4950bf6d4a5e5e63862ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 030/150] fix: write.Conllu print_sent_id=0 failed on loaded
 documents

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 4a7c4f3..a3fcc16 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -66,7 +66,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines and comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 5fae8ee9ad78cc4d3dda94134b6159f20a610cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 031/150] fix: compute_text (and thus saving) failed on words
 without a form

---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 02b7189..546364f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -862,11 +862,11 @@ class Node(object):
             if use_mwt and mwt:
                 if node._ord > last_mwt_id:
                     last_mwt_id = max(w._ord for w in mwt.words)
-                    string += mwt.form
+                    string += '_' if mwt.form is None else mwt.form
                     if mwt.misc['SpaceAfter'] != 'No':
                         string += ' '
             else:
-                string += node.form
+                string += '_' if node.form is None else node.form
                 if node.misc['SpaceAfter'] != 'No':
                     string += ' '
         return string.rstrip()
-- 
2.43.0


From 18097d5043fef19be4b2181fb5afb8700b39144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 032/150] fix: setting a zone must not give a tree without
 sent_id the id "?"

---
 udapi/core/root.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 4699554..403edce 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -102,8 +102,6 @@ class Root(Node):
             self._sent_id = self._bundle.address() + slashzone
         elif self._sent_id:
             self._sent_id = self._sent_id.split('/', 1)[0] + slashzone
-        else:
-            self._sent_id = '?' + slashzone
 
     @property
     def parent(self):
-- 
2.43.0


From 92b0ebd02f0c985b4a1d71ba6c7b00690e4c2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 033/150] fix: ignore_sent_id must give unique bundle ids also
 after splitting documents

---
 udapi/core/basereader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 8365a3f..f646406 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -195,16 +195,16 @@ class BaseReader(Block):
             if self._buffer:
                 root = self._buffer
                 self._buffer = None
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 if orig_bundles:
                     bundle = orig_bundles.pop(0)
                 else:
                     bundle = document.create_bundle()
-                    if root._sent_id is not None:
-                        bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                    if last_bundle_id != '':
+                        bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
                 trees_loaded = 1
-                if root._sent_id is not None:
-                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 self._docs_loaded += 1
                 if root.newdoc and root.newdoc is not True:
                     document.meta["docname"] = root.newdoc
-- 
2.43.0


From 71f5921d588a7ca5a33298945b5643028eece349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 034/150] fix: readers must not read a given filehandle twice

---
 udapi/core/basereader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index f646406..260cad6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -19,6 +19,9 @@ class BaseReader(Block):
         if filehandle is not None:
             files = None
         self.files = Files(filenames=files, filehandle=filehandle, encoding=encoding)
+        if filehandle is not None:
+            # The given filehandle is the first (and only) file, so don't read it again at its end.
+            self.files.next_filename()
         self.zone = zone
         self.bundles_per_doc = bundles_per_doc
         self._buffer = None
@@ -59,8 +62,9 @@ class BaseReader(Block):
 
     @property
     def filename(self):
-        """Property with the current filename."""
-        return self.files.filename
+        """Property with the current filename (or None when reading from a given filehandle)."""
+        filename = self.files.filename
+        return None if filename == '<filehandle_input>' else filename
 
     @property
     def file_number(self):
-- 
2.43.0


From 85f017ef7cd908e2803f3dd00757f2eaa65c2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 035/150] fix: read.Conllu merge=1 max_docs=N must stop reading
 after N documents

---
 udapi/block/read/conllu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 1d3f374..c19ebfa 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -101,11 +101,12 @@ class Conllu(BaseReader):
                 lines = []
                 if tree is None:
                     continue
+                trees.append(tree)
                 if tree.newdoc:
+                    # try_fast_load() stops reading (all files) at this extra tree and ignores it.
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                trees.append(tree)
             else:
                 lines.append(line)
         # The last tree may be missing the final empty line.
-- 
2.43.0


From b115d81ebab20f41bf2084cb504eff63d1dbae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 036/150] fix: util.JoinSentence with sent_id always failed

---
 udapi/block/util/joinsentence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..3b084ba 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -75,3 +75,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From 2f1d21900f6fa33bc7ba2b7c2f26a8d6511fabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 037/150] fix: segment.Merge failed on empty documents and
 trees without words

---
 udapi/block/segment/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..b62c2d3 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -20,6 +20,8 @@ class Merge(Block):
         """Is there actually a sentence boundary between the first and second bundle?"""
         first_tree = self._get_our_tree(first_bundle)
         second_tree = self._get_our_tree(second_bundle)
+        if not first_tree.descendants or not second_tree.descendants:
+            return False
         return self.should_merge_tokens(first_tree.descendants[-1], second_tree.descendants[0])
 
 
@@ -32,6 +34,8 @@ class Merge(Block):
 
     def process_document(self, doc):
         old_bundles = doc.bundles
+        if not old_bundles:
+            return
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
         for bundle in old_bundles[1:]:
-- 
2.43.0


From e0603a910e80e12e7d84360c6e6732e2c9db14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 038/150] fix: coref fields before "other" in global.Entity are
 merged with the other attributes

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 1a57601..68ac350 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -664,7 +664,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k,v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From f1368351d3c0c6af868d83c778d5d3ab4d6b0cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 039/150] fix: only the named fields of global.Entity are left
 out of the "other" field

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 68ac350..e42c274 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -784,7 +784,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From d1addf4b916cd69a1a555b831fa6ee8e2fa50c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 040/150] fix: mention spans with empty nodes x.10 and later

---
 udapi/core/coref.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index e42c274..dfdb682 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -104,6 +104,7 @@ import collections.abc
 import copy
 import logging
 import bisect
+import udapi.core.node
 
 @functools.total_ordering
 class CorefMention(object):
@@ -917,14 +918,21 @@ def store_coref_to_misc(doc):
                 strs = first_word.misc['SplitAnte'] + ',' + strs
             first_word.misc['SplitAnte'] = strs
 
+def _str_to_ord(string):
+    """Convert e.g. '3' to 3.0, '3.1' to 3.1 and '3.10' to OrdTuple('3.10')."""
+    if re.match(r'[0-9]+\.[0-9]{2,}$', string):
+        return udapi.core.node.OrdTuple(string)
+    return float(string)
+
+
 def span_to_nodes(root, span):
     ranges = []
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _str_to_ord(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_str_to_ord(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
-- 
2.43.0


From f97e6b549bb8be17ef6fd5bb640aed005aa054e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 041/150] fix: nested discontinuous mentions of one entity are
 loaded as they were saved

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index dfdb682..46be3ae 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -698,7 +698,7 @@ def load_coref_from_misc(doc, strict=True):
 
                 if subspan_idx and subspan_idx != '1':
                     opened = [pair[0] for pair in unfinished_mentions[eid]]
-                    mention = next(m for m in discontinuous_mentions[eid] if m not in opened)
+                    mention = next(m for m in reversed(discontinuous_mentions[eid]) if m not in opened)
                     mention._words.append(node)
                     if closing and subspan_idx == total_subspans:
                         m = discontinuous_mentions[eid].pop()
-- 
2.43.0


From 0bdfb9aec5ec8c638fd516e584832bd616a1520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 042/150] fix: load a discontinuous mention ending with a
 single word without head index

---
 udapi/core/coref.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 46be3ae..aee4a37 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -704,11 +704,12 @@ def load_coref_from_misc(doc, strict=True):
                         m = discontinuous_mentions[eid].pop()
                         if m is not mention:
                             _error(f"{node}: closing mention {mention.entity.eid} ({mention.words}), but it has an unfinished nested mention ({m.words})", 1)
-                        try:
-                            mention.head = mention._words[head_idx - 1]
-                        except IndexError as err:
-                            _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
-                                    f"closed at {node} with words={mention._words}", 1)
+                        if head_idx:
+                            try:
+                                mention.head = mention._words[head_idx - 1]
+                            except IndexError as err:
+                                _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
+                                        f"closed at {node} with words={mention._words}", 1)
                 else:
                     mention = CorefMention(words=[node], entity=entity, add_word_backlinks=False)
                     if other:
-- 
2.43.0


From 5e79974e0b8264a0b7be4242ce6a96d966877d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 043/150] fix: bridging links to entities without mentions are
 all omitted when saving

---
 udapi/core/coref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aee4a37..d553f47 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -526,11 +526,10 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
-            if not link.target.mentions:
-                if warn:
-                    logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
-                self._data.remove(link)
+        for link in [l for l in self._data if not l.target.mentions]:
+            if warn:
+                logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
+            self._data = [l for l in self._data if l is not link]
 
 
 def _error(msg, strict):
@@ -896,9 +895,10 @@ def store_coref_to_misc(doc):
         if mention._bridging:
             mention._bridging._delete_targets_without_mentions()
             str_bridge = str(mention._bridging)
-            if firstword.misc['Bridge']:
+            if str_bridge and firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
-            firstword.misc['Bridge'] = str_bridge
+            if str_bridge:
+                firstword.misc['Bridge'] = str_bridge
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
-- 
2.43.0


From 5e16ab7e71b003c80fe69016e63a902544560a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 044/150] fix: split antecedents without mentions are all
 omitted when saving

---
 udapi/core/coref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index d553f47..90a09cb 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -903,13 +903,16 @@ def store_coref_to_misc(doc):
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
             if not entity.split_ante or len(entity.split_ante) < 2:
                 logging.warning(f"SplitAnte of {entity.eid} has less than two antecedents, omitting")
                 continue
+            if not entity.mentions:
+                logging.warning(f"Entity {entity.eid} has no mentions, omitting its SplitAnte")
+                continue
             first_word = entity.mentions[0].words[0]
             if tree2docid:
                 strs = ','.join(f'{sa.eid_or_grp}<{entity.eid_or_grp}' for sa in entity.split_ante)
-- 
2.43.0


From b7f232a6ef63b2fdd157db176bade8122d0551b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 045/150] fix: mentions stay sorted after changing
 mention.words

---
 udapi/core/coref.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 90a09cb..92febd3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -244,11 +244,12 @@ class CorefMention(object):
         self._words = new_words
         for new_word in new_words:
             if new_word not in kept_words:
-                if not new_word._mentions or self > new_word._mentions[-1]:
-                    new_word._mentions.append(self)
-                else:
-                    new_word._mentions.append(self)
-                    new_word._mentions.sort()
+                new_word._mentions.append(self)
+        # The new words may have changed the position of this mention in the ordering of mentions.
+        if new_words and self._entity is not None:
+            for new_word in new_words:
+                new_word._mentions.sort()
+            self._entity._mentions.sort()
 
     @property
     def span(self):
-- 
2.43.0


From 0af282b71739dcec366cb6f8e06a664de035e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 046/150] fix: node.coref_mentions stay sorted after changing
 mention.entity

---
 udapi/core/coref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 92febd3..beb51d3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -211,6 +211,9 @@ class CorefMention(object):
                 logging.warning(f"Original entity {original_entity.eid} is now empty.")
         self._entity = new_entity
         bisect.insort(new_entity._mentions, self)
+        # Same-span mentions are ordered by their eid.
+        for word in self._words:
+            word._mentions.sort()
 
     @property
     def bridging(self):
-- 
2.43.0


From 383d831b1d64b7b7e2c833652aa76a383b79354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 047/150] fix: a rejected create_mention leaves no mention
 behind

---
 udapi/core/coref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index beb51d3..35900ac 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -384,12 +384,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not within the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
-- 
2.43.0


From 4fe51f5eabca83eb98db41aaa383241d3f78b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 048/150] fix: selecting bridging links by relation

---
 udapi/core/coref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 35900ac..f25c5f3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -524,7 +524,9 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        subset = BridgingLinks(self.src_mention, [(l.target, l.relation) for l in self._data if re.match(relations_re, l.relation)], self.strict)
+        self.src_mention._bridging = self
+        return subset
 
     @property
     def targets(self):
-- 
2.43.0


From d32b487d22b743e29f15bd680a04ba37f7e19034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 049/150] fix: unpacking of bridging links as documented

---
 udapi/core/coref.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index f25c5f3..440b0af 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -424,6 +424,11 @@ class BridgingLink:
         self.target = target
         self.relation = '' if relation is None else relation
 
+    def __iter__(self):
+        """Allow unpacking: `for entity, relation in mention.bridging`."""
+        yield self.target
+        yield self.relation
+
     def __lt__(self, another):
         if self.target == another.target:
             return self.relation < another.relation
-- 
2.43.0


From 531be18a9948b2c35b1cfb3e0876a343538fa628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 050/150] fix: total ordering of same-entity discontinuous
 mentions

---
 udapi/core/coref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 440b0af..5f55582 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -172,6 +172,9 @@ class CorefMention(object):
                 return True
             if another._words[-1].precedes(self._words[-1]):
                 return False
+            if self._entity is another._entity:
+                # e.g. discontinuous mentions <w1, w2, w4> and <w1, w3, w4>
+                return [w.ord for w in self._words] < [w.ord for w in another._words]
             return self._entity.eid < another._entity.eid
         return self._words[0].precedes(another._words[0])
 
-- 
2.43.0


From 6177dd7ffa64e9d28304bf8b3e888f75b58ee401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 051/150] fix: corefud.MoveHead on mentions of empty nodes
 without parents

---
 udapi/block/corefud/movehead.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..7fa35d2 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,12 +53,15 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
         # and forming thus a "gappy treelet", where the head is clearly the "highest" node.
-        (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
+        # If all the candidates are empty nodes without any non-empty parent, there is no such node.
+        highest = None
+        if non_empty:
+            (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
         if highest in enh_heads:
             return highest, 'gappy'
         if highest in mwords:
-- 
2.43.0


From 8abed1695a543fe622daf552c621e6c9b80cccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 052/150] fix: corefud.FixParentheses registers the mention in
 the added word

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..a6d404e 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = mention.words + [prev_node]
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From ac0ca26f1f03093cd44c2503997a4af1d0edd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 053/150] fix: corefud.RemoveNoCorefEntities removes also the
 mentions

---
 udapi/block/corefud/removenocorefentities.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..d0eb8b3 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,13 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
+        if not doc._eid_to_entity:
+            # With no entities left, nothing would be re-serialized, so delete the original annotation here.
+            for node in doc.nodes_and_empty:
+                for attr in ('Entity', 'Bridge', 'SplitAnte'):
+                    del node.misc[attr]
-- 
2.43.0


From 1d11824aa625ca44150b8ed9cb438c16c3882068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 054/150] fix: corefud.FixEntityAcrossNewdoc does not keep the
 old mentions in words

---
 udapi/block/corefud/fixentityacrossnewdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/corefud/fixentityacrossnewdoc.py b/udapi/block/corefud/fixentityacrossnewdoc.py
index 61e5e4f..e36e088 100644
--- a/udapi/block/corefud/fixentityacrossnewdoc.py
+++ b/udapi/block/corefud/fixentityacrossnewdoc.py
@@ -21,5 +21,7 @@ class FixEntityAcrossNewdoc(Block):
         udapi.core.coref.store_coref_to_misc(doc)
         assert doc.meta["global.Entity"].startswith("eid")
         doc.meta["global.Entity"] = "GRP" + doc.meta["global.Entity"][3:]
+        for node in doc.nodes_and_empty:
+            node._mentions = []
         udapi.core.coref.load_coref_from_misc(doc)
         doc.meta["global.Entity"] = "eid" + doc.meta["global.Entity"][3:]
-- 
2.43.0


From ca115f3db757e24a255e6569900cfaf7133eb08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 055/150] fix: corefud.IndexClusters follows the documented
 ordering of entities

---
 udapi/block/corefud/indexclusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/indexclusters.py b/udapi/block/corefud/indexclusters.py
index 3f5d74d..1f5c2f1 100644
--- a/udapi/block/corefud/indexclusters.py
+++ b/udapi/block/corefud/indexclusters.py
@@ -23,7 +23,7 @@ class IndexClusters(Block):
         self.prefix = prefix
 
     def process_document(self, doc):
-        entities = doc.coref_entities
+        entities = sorted(doc.coref_entities)
         if not entities:
             return
         new_eid_to_entity = {}
-- 
2.43.0


From bd76679fe481fc539531d32a1078e02aee8381cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 056/150] fix: blocks process all mentions and empty nodes even
 if some are removed or moved

---
 udapi/block/util/eval.py | 2 +-
 udapi/core/block.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/util/eval.py b/udapi/block/util/eval.py
index 6e4f2ac..0e062f3 100644
--- a/udapi/block/util/eval.py
+++ b/udapi/block/util/eval.py
@@ -82,7 +82,7 @@ class Eval(Block):
                     this = entity
                     exec(self.expand_eval_code(self.coref_entity))
                 if self.coref_mention:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         this = mention
                         exec(self.expand_eval_code(self.coref_mention))
 
diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..19af047 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -101,7 +101,7 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
@@ -120,13 +120,13 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
-- 
2.43.0


From c3e6bc69b373a4fdb835c094aa1e25eaf84da218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 057/150] fix: corefud.Delete does not leave an empty DEPS
 column

---
 udapi/block/corefud/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 4e68e8d..776e99a 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -76,7 +76,7 @@ class Delete(Block):
                     else:
                         newdeps = self._deps_ignore_nodes(node, root.empty_nodes)
                         newdeps_sorted = sorted(set((dep['parent'].ord, dep['deprel']) for dep in newdeps))
-                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted)
+                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted) or '_'
 
                     if '.' in node.misc['Functor'].split(':')[0]:
                         del node.misc['Functor']
-- 
2.43.0


From c71ce4431078fbc32a8f8e63a6f8f6a655838f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 058/150] fix: int(ord) of empty nodes x.10 and later

---
 udapi/core/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 546364f..5884334 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1126,6 +1126,9 @@ class OrdTuple:
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
+    def __int__(self):
+        return self._key[0]
+
     def increase(self):
         """Increment the decimal part of this ord."""
         self._key = (self._key[0], self._key[1]+1)
-- 
2.43.0


From 208edb155a2c8de542b00ff8546da8c83fcd8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 059/150] fix: selected bridging links are the original link
 objects

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 5f55582..b095745 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -532,7 +532,8 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        subset = BridgingLinks(self.src_mention, [(l.target, l.relation) for l in self._data if re.match(relations_re, l.relation)], self.strict)
+        subset = BridgingLinks(self.src_mention, strict=self.strict)
+        subset._data = [l for l in self._data if re.match(relations_re, l.relation)]
         self.src_mention._bridging = self
         return subset
 
-- 
2.43.0


From 1483cf1b03c596ee224e70483bf7a18867a1a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 060/150] fix: util.MarkDiff must not align words out of the
 replaced span

---
 udapi/block/util/markdiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e102ca9..7a43854 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -71,7 +71,8 @@ class MarkDiff(Block):
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
             if edit in {'equal', 'replace'}:
-                for i in range(pred_lo, pred_hi):
+                # If the two sides of a replacement have different lengths, the rest is treated as ADDED/DELETED.
+                for i in range(pred_lo, min(pred_hi, pred_lo + gold_hi - gold_lo)):
                     alignment[i] = i - pred_lo + gold_lo
                     if self.align in ("both", "from-pred"):
                         pred_nodes[i].misc[self.align_attr] = i - pred_lo + gold_lo + 1
-- 
2.43.0


From 4f5e175dbde0bd386f028608fe83b819a5203298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 061/150] fix: util.Split parts=N must create N parts and link
 their bundles to the new documents

---
 udapi/block/util/split.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..669930f 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -21,6 +21,7 @@ class Split(BaseReader):
             raise ValueError('Cannot specify both parts and bundles_per_doc')
         self.parts = parts
         self.bundles_per_doc = bundles_per_doc
+        self.remaining_parts = parts
         self.buffer = None
 
     @staticmethod
@@ -31,9 +32,15 @@ class Split(BaseReader):
         if not self.buffer:
             self.buffer = document.bundles
             document.bundles = []
-            if self.bundles_per_doc is None:
-                self.bundles_per_doc = math.ceil(len(self.buffer) / self.parts)
+            self.remaining_parts = self.parts
         self.buffer.extend(document.bundles)
-        document.bundles = self.buffer[:self.bundles_per_doc]
-        self.buffer = self.buffer[self.bundles_per_doc:]
+        size = self.bundles_per_doc
+        if size is None:
+            size = math.ceil(len(self.buffer) / max(self.remaining_parts, 1))
+            self.remaining_parts -= 1
+        document.bundles = self.buffer[:size]
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle.number = number
+            bundle._document = document  # pylint: disable=protected-access
+        self.buffer = self.buffer[size:]
         self.finished = not self.buffer
-- 
2.43.0


From 3b32e7c72e978ba79b1787cd90987455b182743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 062/150] fix: util.See on no nodes or with no matching nodes

---
 udapi/block/util/see.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 9a895b8..4a87639 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -105,12 +105,12 @@ class See(Block):
         print("matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)"
               % (self.overall['matching_nodes'],
                  self.overall['nodes'],
-                 self.overall['matching_nodes'] * 100 / self.overall['nodes'],
+                 self.overall['matching_nodes'] * 100 / (self.overall['nodes'] or 1),
                  self.overall['matching_trees'],
                  self.overall['trees'],
-                 self.overall['matching_trees'] * 100 / self.overall['trees']))
+                 self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
-            vals = len(self.match[stat].keys()) - 1
+            vals = len(self.match[stat].keys() - {'T O T A L'})
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
             match_total = self.match[stat]['T O T A L'] or 1
             every_total = self.every[stat]['T O T A L'] or 1
-- 
2.43.0


From c3ccdb9df15ee0c8f2f379f4aa0f3a04cf6de48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 063/150] fix: util.Wc on documents where the first bundle has
 no trees

---
 udapi/block/util/wc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/wc.py b/udapi/block/util/wc.py
index 9920d0b..81019b8 100644
--- a/udapi/block/util/wc.py
+++ b/udapi/block/util/wc.py
@@ -23,7 +23,7 @@ class Wc(Block):
         self.mwts += mwtoks
         self.tokens += len(tree.token_descendants) if mwtoks else len(tree.descendants)
         self.empty += len(tree.empty_nodes)
-        if tree.newdoc or tree == tree.document[0].trees[0]:
+        if tree.newdoc or tree == next(tree.document.trees):
             self.docs += 1
         if tree.newpar:
             self.paragraphs += 1
-- 
2.43.0


From 3e232e389c4fb3659e4fab4d520ce4d9a9ccac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 064/150] fix: util.MarkMwtBugsAtNodes must not repeat bugs

---
 udapi/block/util/markmwtbugsatnodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/markmwtbugsatnodes.py b/udapi/block/util/markmwtbugsatnodes.py
index ebc2ef4..2bff839 100644
--- a/udapi/block/util/markmwtbugsatnodes.py
+++ b/udapi/block/util/markmwtbugsatnodes.py
@@ -15,8 +15,9 @@ class MarkMwtBugsAtNodes(Block):
         bugs = []
         if node.misc['Bug']:
             bugs = node.misc['Bug'].split('+')
-        if not bugstring in bugs:
-            bugs.append(bugstring)
+        for bug in bugstring.split('+'):
+            if not bug in bugs:
+                bugs.append(bug)
         node.misc['Bug'] = '+'.join(bugs)
 
     def process_node(self, node):
-- 
2.43.0


From 2ac9c9ea92fdad811d6f7251411815e66a2e29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 065/150] fix: corefud.PrintMentions options print_total and
 print_should

---
 udapi/block/corefud/printmentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..072c8a2 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -32,8 +32,8 @@ class PrintMentions(Block):
         if shuffle:
             random.seed(42)
         self.print_other_forms = print_other_forms
-        self.print_total = print_total,
-        self.print_should = print_should,
+        self.print_total = print_total
+        self.print_should = print_should
         print_class = TextModeTreesHtml if html else TextModeTrees
         self.print_block = print_class(
                 print_sent_id=print_sent_id, print_text=print_text, add_empty_line=add_empty_line, indent=indent,
-- 
2.43.0


From a1979a6df7566db8dd6504f210d57df4d71a6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 066/150] fix: transform.Proj must lift edges until the tree is
 projective

---
 udapi/block/transform/proj.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..6f8cb3f 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,13 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        lifted = set()
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                self.lift(nonproj[1], lifted)
+            # Lifting a node may make edges above its original position non-projective.
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -45,14 +49,16 @@ class Proj(Block):
         node.parent = orig_parent
         return (-depth, node)
 
-    def lift(self, node):
+    def lift(self, node, lifted):
         orig_parent = node.parent
         depth = 0
         while node.is_nonprojective():
             node.parent = node.parent.parent
             depth += 1
-        if depth == 0:
+        # Keep the label of the original parent if the node is lifted repeatedly.
+        if depth == 0 or node in lifted:
             return
+        lifted.add(node)
         self.mark(node, orig_parent.udeprel)
 
     def mark(self, node, label):
-- 
2.43.0


From 1fd8d244d94b74e11ce0045afc07e61c3779c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 067/150] fix: transform.Flatten oneroot=1 on empty trees

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From 6c14003c84c66792a2ece71deaa46640760d0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 068/150] fix: eval blocks with parameter files

---
 udapi/block/eval/conll17.py | 11 +++++++++++
 udapi/block/eval/conll18.py | 11 +++++++++++
 udapi/block/eval/f1.py      | 10 ++++++++++
 udapi/block/eval/parsing.py | 10 ++++++++++
 4 files changed, 42 insertions(+)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 61e8638..97e58a9 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -115,6 +115,16 @@ class Conll17(BaseWriter):
         self.print_raw = print_raw
         self.print_results = print_results
 
+    def before_process_document(self, document):
+        # Without print_raw, nothing is printed before process_end,
+        # so the output file must not be opened earlier.
+        if document is None or self.print_raw:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if document is None or self.print_raw:
+            super().after_process_document(document)
+
     def process_tree(self, tree):
         gold_tree = tree.bundle.get_tree(self.gold_zone)
         if tree == gold_tree:
@@ -180,6 +190,7 @@ class Conll17(BaseWriter):
             fscore = 2 * correct / (pred + gold) if pred + gold else 0
             print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{:10.2f}".format(
                 metric, 100 * precision, 100 * recall, 100 * fscore, 100 * alignacc))
+        self.after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index 22f42a4..d58d16a 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -128,6 +128,16 @@ class Conll18(BaseWriter):
     def _ufeats(self, feats):
         return '|'.join(sorted(x for x in feats.split('|') if x.split('=', 1)[0] in UNIV_FEATS))
 
+    def before_process_document(self, document):
+        # Without print_raw, nothing is printed before process_end,
+        # so the output file must not be opened earlier.
+        if document is None or self.print_raw:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if document is None or self.print_raw:
+            super().after_process_document(document)
+
     def process_tree(self, tree):
         gold_tree = tree.bundle.get_tree(self.gold_zone)
         if tree == gold_tree:
@@ -229,6 +239,7 @@ class Conll18(BaseWriter):
                 alignacc = "{:10.2f}".format(100 * alignacc) if metric != 'Words' else ""
                 print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{}".format(
                     metric, 100 * precision, 100 * recall, 100 * fscore, alignacc))
+        self.after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index e488977..677413d 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -104,6 +104,15 @@ class F1(BaseWriter):
             self._gold = Counter()
             self._total = Counter()
 
+    def before_process_document(self, document):
+        # Nothing is printed before process_end, so the output file must not be opened earlier.
+        if document is None:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if document is None:
+            super().after_process_document(document)
+
     def process_tree(self, tree):
         gold_tree = tree.bundle.get_tree(self.gold_zone)
         if tree == gold_tree:
@@ -199,6 +208,7 @@ class F1(BaseWriter):
         f1 = 2 * precision * recall / ((precision + recall) or 1)
         print("%-9s = %6.2f%%\n" * 3
               % ('precision', 100 * precision, 'recall', 100 * recall, 'F1', 100 * f1), end='')
+        self.after_process_document(None)
 
 
 # difflib.SequenceMatcher does not compute LCS, so let's implement it here
diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index 6923c1f..b48456a 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -11,6 +11,15 @@ class Parsing(BaseWriter):
         self.gold_zone = gold_zone
         self.correct_las, self.correct_ulas, self.correct_uas, self.total = 0, 0, 0, 0
 
+    def before_process_document(self, document):
+        # Nothing is printed before process_end, so the output file must not be opened earlier.
+        if document is None:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if document is None:
+            super().after_process_document(document)
+
     def process_tree(self, tree):
         gold_tree = tree.bundle.get_tree(self.gold_zone)
         if tree == gold_tree:
@@ -38,3 +47,4 @@ class Parsing(BaseWriter):
         print('UAS           = %6.2f' % (100 * self.correct_uas / self.total))
         print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / self.total))
         print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / self.total))
+        self.after_process_document(None)
-- 
2.43.0


From b13542ee4e034919e5af72dd9dfe703d617fabf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 069/150] fix: eval.Parsing must not divide by zero without
 words

---
 udapi/block/eval/parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index b48456a..7521b52 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -44,7 +44,8 @@ class Parsing(BaseWriter):
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
         print('nodes = %d' % self.total)
-        print('UAS           = %6.2f' % (100 * self.correct_uas / self.total))
-        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / self.total))
-        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / self.total))
+        total = self.total or 1  # prevent division by zero
+        print('UAS           = %6.2f' % (100 * self.correct_uas / total))
+        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / total))
+        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / total))
         self.after_process_document(None)
-- 
2.43.0


From 13dd5b9f0966ee7727ceb25fbb5c9e42d20d55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 070/150] fix: eval.F1 applied to no zone

---
 udapi/block/eval/f1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index 677413d..4a6d454 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -184,8 +184,8 @@ class F1(BaseWriter):
                             'The results are mixed together. Check the parameter zones=%s',
                             list(self.visited_zones.elements()), self.zones)
         print('Comparing predicted trees (zone=%s) with gold trees (zone=%s), sentences=%d'
-              % (next(self.visited_zones.elements()), self.gold_zone,
-                 self.visited_zones.most_common(1)[0][1]))
+              % (next(self.visited_zones.elements(), None), self.gold_zone,
+                 max(self.visited_zones.values(), default=0)))
         if self.details:
             print('=== Details ===')
             print('%-10s %5s %5s %5s %6s  %6s  %6s'
-- 
2.43.0


From 58eaf8ca6db7cecb7e450db3ff6da05019555246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:55 +0000
Subject: [PATCH 071/150] fix: eval.Conll17/18 bootstrap option --confidence

---
 udapi/block/eval/conll17.py | 2 +-
 udapi/block/eval/conll18.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 97e58a9..649fd72 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -205,7 +205,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument("--dir_results", "-d", default="results", help="directory with results")
     parser.add_argument("--resamples", "-r", default=1000, type=int, help="how many resamples")
-    parser.add_argument("--confidence", "-c", default=95, help="use x-percent confidence interval")
+    parser.add_argument("--confidence", "-c", default=95, type=float, help="use x-percent confidence interval")
     parser.add_argument("--tests", "-t", default='all', help="comma-separated test sets")
     parser.add_argument("--systems", "-s", default='all', help="comma-separated systems")
     parser.add_argument("--randseed", default=0, type=int, help="random seed, default=sys time")
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index d58d16a..d5abbb0 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -254,7 +254,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument("--dir_results", "-d", default="results", help="directory with results")
     parser.add_argument("--resamples", "-r", default=1000, type=int, help="how many resamples")
-    parser.add_argument("--confidence", "-c", default=95, help="use x-percent confidence interval")
+    parser.add_argument("--confidence", "-c", default=95, type=float, help="use x-percent confidence interval")
     parser.add_argument("--tests", "-t", default='all', help="comma-separated test sets")
     parser.add_argument("--systems", "-s", default='all', help="comma-separated systems")
     parser.add_argument("--randseed", default=0, type=int, help="random seed, default=sys time")
-- 
2.43.0


From 18b38e70e4f77bb15eab9887569512985e127ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 072/150] fix: util.ResegmentGold marks on re-attached root
 words

---
 udapi/block/util/resegmentgold.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/resegmentgold.py b/udapi/block/util/resegmentgold.py
index 383510b..56cccbe 100644
--- a/udapi/block/util/resegmentgold.py
+++ b/udapi/block/util/resegmentgold.py
@@ -95,6 +95,7 @@ class ResegmentGold(Block):
                     for word in words:
                         if word in was_subroot:
                             del word.misc['Rehanged']
+                            word.parent = p_tree
                         if word.parent is not p_tree and word.parent not in words:
                             if word.udeprel in FUNCTIONAL:
                                 word.parent.misc['FuncChildMissing'] = 'Yes'
@@ -137,6 +138,7 @@ class ResegmentGold(Block):
             possible_subroots = sorted([n for n in possible_subroots if n.form == g_subroot.form],
                                        key=lambda n: abs(n.ord - g_subroot.ord))
             the_subroot = possible_subroots[0] if possible_subroots else the_subroot
+            del the_subroot.misc['Rehanged']
         else:
             the_subroot = p_tree.children[0]
             the_subroot.misc['Rehanged'] = 'Yes'
-- 
2.43.0


From f7bbcd4702ea752691b00a0f4246da2e8bdc6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:27 +0000
Subject: [PATCH 073/150] fix: write.TextModeTreesHtml must respect zones and
 if_empty_tree

---
 udapi/block/write/textmodetreeshtml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..b58cbec 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -93,11 +93,12 @@ class TextModeTreesHtml(TextModeTrees):
             # Don't print <table><tr></tr></table> if no tree will be printed in this bundle.
             marked_trees = []
             for tree in bundle:
-                if self._should_process_tree(tree):
-                    if self.print_empty:
-                        allnodes = [tree] + tree.descendants_and_empty
-                    else:
-                        allnodes = tree.descendants(add_self=1)
+                if not self._should_process_tree(tree):
+                    continue
+                if self.print_empty:
+                    allnodes = [tree] + tree.descendants_and_empty
+                else:
+                    allnodes = tree.descendants(add_self=1)
                 if self.should_print_tree(tree, allnodes):
                     marked_trees.append(tree)
             if marked_trees:
-- 
2.43.0


From 4b397a1d93e621ee0245ce9c91a0473327b55342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 074/150] fix: write.TextModeTrees highlighting of marked
 comments

---
 udapi/block/write/textmodetrees.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..195e4d6 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -332,7 +332,10 @@ class TextModeTrees(BaseWriter):
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
         if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(root.comment.rstrip().replace('\n', '\n#')))
+            comment = root.comment.rstrip()
+            if self.color:
+                comment = self.colorize_comment(comment)
+            print('#' + comment.replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
         return bool(self.lines[idx] and self.lines[idx][-1] in chars)
@@ -384,7 +387,7 @@ class TextModeTrees(BaseWriter):
         """Return a string with color markup for a given comment."""
         if self.mark_re is None:
             return comment
-        return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
+        return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
     @staticmethod
     def colorize_attr(attr, value, marked):
-- 
2.43.0


From 823c7850176a1141e0c3c1eb0d5e2b10c74f5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 075/150] fix: write.TextModeTreesHtml must escape values also
 with color=0

---
 udapi/block/write/textmodetrees.py     | 7 +++++++
 udapi/block/write/textmodetreeshtml.py | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 195e4d6..588fed3 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -373,6 +373,8 @@ class TextModeTrees(BaseWriter):
             if self.color:
                 for i, attr in enumerate(self.attrs):
                     values[i] = self.colorize_attr(attr, values[i], marked)
+            else:
+                values = [self.plain_attr(value) for value in values]
             if not self.color and marked:
                 self.lines[idx] += ' **' + ' '.join(values) + '**'
                 self.lengths[idx] += 4
@@ -389,6 +391,11 @@ class TextModeTrees(BaseWriter):
             return comment
         return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
+    @staticmethod
+    def plain_attr(value):
+        """Return a string to be printed for a given attribute value if colors are not used."""
+        return value
+
     @staticmethod
     def colorize_attr(attr, value, marked):
         """Return a string with color markup for a given attr and its value."""
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index b58cbec..e728def 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -50,12 +50,12 @@ class TextModeTreesHtml(TextModeTrees):
         # pylint: disable=bad-super-call
         super(TextModeTrees, self).before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('<style>' + STYLE)
         print('</style>\n</head>\n<body>\n<pre>')
         if self.print_doc_meta:
             for key, value in sorted(document.meta.items()):
-                print('%s = %s' % (key, value))
+                print(escape('%s = %s' % (key, value)))
 
     def after_process_document(self, document):
         print("</pre>\n</body>\n</html>")
@@ -74,6 +74,10 @@ class TextModeTreesHtml(TextModeTrees):
             return comment
         return self.comment_mark_re.sub(r'<mark>\g<0></mark>', comment)
 
+    @staticmethod
+    def plain_attr(value):
+        return escape(value)
+
     @staticmethod
     def colorize_attr(attr, value, marked):
         """Return a string with color markup for a given attr and its value."""
-- 
2.43.0


From 4cb271f788824df3a773c1184373a5e4ba30da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:51 +0000
Subject: [PATCH 076/150] fix: write.TextModeTrees edges with hints=0

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 588fed3..95498c5 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪┡┢├') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢├')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From 4ce031a46f771e28ee6e010383287aa32f392310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 077/150] fix: write.TextModeTrees print_comments on subtrees

---
 udapi/block/write/textmodetrees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 95498c5..5a76db6 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -241,7 +241,9 @@ class TextModeTrees(BaseWriter):
             return True
         if any(self.is_marked(n) for n in allnodes):
             return True
-        if not self.print_comments or root.comment is None or self.mark_re is None:
+        if not self.print_comments or self.mark_re is None:
+            return False
+        if not root.is_root() or root.comment is None:
             return False
         return self.comment_mark_re.search(root.comment)
 
@@ -331,7 +333,7 @@ class TextModeTrees(BaseWriter):
             print('# sent_id = ' + root.address())
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
-        if self.print_comments and root.comment:
+        if self.print_comments and root.is_root() and root.comment:
             comment = root.comment.rstrip()
             if self.color:
                 comment = self.colorize_comment(comment)
-- 
2.43.0


From 932ef339d5b20f1a6d75d7a4917dc1a0390a2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 078/150] fix: write.SentencesHtml must escape HTML

---
 udapi/block/write/sentenceshtml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..8cf306a 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,5 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        print('  <li id="%s">%s</li>' 
+              % (escape(tree.sent_id), escape(tree.get_sentence(self.if_missing))))
-- 
2.43.0


From e80fcd0d0f76aa68a0f0daa9d4ebeb0e14ebb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 079/150] fix: write.Html must escape < and quotes in ids

---
 udapi/block/write/html.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/html.py b/udapi/block/write/html.py
index ae85d43..e807069 100644
--- a/udapi/block/write/html.py
+++ b/udapi/block/write/html.py
@@ -114,7 +114,7 @@ class Html(BaseWriter):
                 print('"trees":{"a":{"language":"%s","nodes":[' % zone)
                 print('{"id":%s,"parent":null,' % _id(tree), end='')
                 print('"firstson":' + _id(tree.children[0] if tree.children else None), end=',')
-                print('"labels":["zone=%s","id=%s"]}' % (zone, tree.address()))
+                print('"labels":["zone=%s","id=%s"]}' % (zone, _esc(tree.address())))
                 desc += ',["[%s]","label"],[" ","space"]' % zone
                 for node in tree.descendants:
                     desc += self.print_node_json(node)
@@ -133,7 +133,7 @@ class Html(BaseWriter):
         names = ['ord', 'misc', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel']
         values = node.get_attrs(names, undefs='')
         order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) for x in values]
-        address = node.address()
+        address = _esc(node.address())
         id_node, id_parent = _id(node), _id(node.parent)
         firstson = node.children[0] if node.children else None
         rbrother = next((n for n in node.parent.children if node.precedes(n)), None)
@@ -157,10 +157,11 @@ class Html(BaseWriter):
 def _id(node):
     if node is None:
         return 'null'
-    return '"n%s"' % node.address().replace('#', '-').replace('/', '-')
+    return '"n%s"' % _esc(node.address()).replace('#', '-').replace('/', '-')
 
 
 def _esc(string):
     if string is None:
         string = ''
-    return string.replace('\\', '\\\\').replace('"', r'\"')
+    # The JSON is printed inside of the <script> element, so it must not contain "</script>" or "<!--".
+    return string.replace('\\', '\\\\').replace('"', r'\"').replace('<', r'\u003c')
-- 
2.43.0


From 5b747d9ce9937b46577922c6448fb3b77f149876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 080/150] fix: write.Treex must escape XML special characters

---
 udapi/block/write/treex.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..3f1b5bb 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from xml.sax.saxutils import escape, quoteattr
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -20,7 +22,7 @@ class Treex(BaseWriter):
         super().after_process_document(doc)
 
     def process_bundle(self, bundle):
-        print('    <LM id="%s">\n      <zones>' % bundle.bundle_id)
+        print('    <LM id=%s>\n      <zones>' % quoteattr(bundle.bundle_id))
         super().process_bundle(bundle)
         print('      </zones>\n    </LM>')
 
@@ -31,28 +33,28 @@ class Treex(BaseWriter):
         ind = ' ' * 8
         print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
-        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
+        print(ind + "  <trees>\n" + ind + "    <a_tree id=%s>" % quoteattr(tree_id))
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
 
     def print_subtree(self, node, tree_id, indent):
         """Recrsively print trees in Treex format."""
         if not node.is_root():
-            print(indent + "<LM id='%s-n%s'>" % (tree_id, node.ord))
+            print(indent + "<LM id=%s>" % quoteattr('%s-n%s' % (tree_id, node.ord)))
         ind = indent + '  '
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(str(node.xpos)), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From a066e30ba3fd17601205ed1b34b796d9c34cc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 081/150] fix: write.Tikz must escape all TeX special
 characters

---
 udapi/block/write/tikz.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..60a98f0 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -4,6 +4,23 @@ import logging
 from udapi.core.basewriter import BaseWriter
 
 
+# The separator \& is redefined by tikz-dependency within deptext, so it cannot be used for "&".
+TEX_ESCAPE = {
+    '\\': r'\textbackslash{}',
+    '{': r'\{',
+    '}': r'\}',
+    '_': r'\_',
+    '$': r'\$',
+    '#': r'\#',
+    '%': r'\%',
+    '&': r'\symbol{38}',
+    '~': r'\textasciitilde{}',
+    '^': r'\textasciicircum{}',
+    '[': '$[$',
+    ']': '$]$',
+}
+
+
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
 
@@ -97,7 +114,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(TEX_ESCAPE.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
@@ -138,19 +155,20 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, node.deprel, node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, node.deprel))
+                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel)))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, dep['deprel']))
+                            print(r'\depedge[edge below]{%d}{%d}{%s}' 
+                                  % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
             start_pos = tree.comment.find(self.comment_attribute + ' = ')
             if start_pos != -1:
-- 
2.43.0


From 96990c660c4f13119a2fb9376dfb1fb39d7d394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 082/150] fix: write.Tikz comment_attribute must close the
 brace; empty trees with as_tree

---
 udapi/block/write/tikz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 60a98f0..34868ee 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -145,7 +145,7 @@ class Tikz(BaseWriter):
         print(r'\end{deptext}')
         if self.as_tree:
             depths = [n._get_attr('depth') for n in nodes]
-            max_depth = max(depths)
+            max_depth = max(depths, default=0)
             for node in nodes:
                 print(r'\node (w%d) [yshift=\depskip+%s\deplevel,depnode] at (\wordref{1}{%d}) {};'
                       % (node.ord, max_depth - depths[node.ord - 1], node.ord))
@@ -174,7 +174,7 @@ class Tikz(BaseWriter):
             if start_pos != -1:
                 start_pos += len(self.comment_attribute) + 3
                 end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+                print(r'\deptrans{' + self._tex_escape(tree.comment[start_pos:end_pos]) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From be316ffaadf79ba700ed569da2d9efde634e7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 083/150] fix: write.Tikz comment_attribute must match the
 whole name and print the whole value

---
 udapi/block/write/tikz.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 34868ee..e6d88d2 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -1,5 +1,6 @@
 """Tikz class is a writer for LaTeX with tikz-dependency."""
 import logging
+import re
 
 from udapi.core.basewriter import BaseWriter
 
@@ -170,11 +171,9 @@ class Tikz(BaseWriter):
                             print(r'\depedge[edge below]{%d}{%d}{%s}' 
                                   % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
-            start_pos = tree.comment.find(self.comment_attribute + ' = ')
-            if start_pos != -1:
-                start_pos += len(self.comment_attribute) + 3
-                end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + self._tex_escape(tree.comment[start_pos:end_pos]) + '}')
+            match = re.search('^ *%s = (.*)' % re.escape(self.comment_attribute), tree.comment, re.M)
+            if match:
+                print(r'\deptrans{' + self._tex_escape(match.group(1)) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From 5277f356d98a5ab3c89ede5e871be844569748bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 084/150] fix: write.* path=name.* must keep the original
 extension

---
 udapi/core/basewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..7052706 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -78,7 +78,7 @@ class BaseWriter(Block):
                             new_dir = old_dir
                         if new_file in ('', '*'):
                             new_file = old_file
-                        if new_ext in ('', '*'):
+                        if new_ext in ('', '.*'):
                             new_ext = old_ext
                         docname = os.path.join(new_dir, new_file + new_ext)
                     logging.info('Writing to file %s.', docname)
-- 
2.43.0


From 41a9ae8b9c4eebd241e7eb2845b405426601b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 085/150] fix: udapy must exit with non-zero status after
 sys.exit(1) in a block and failed output

---
 bin/udapy | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/udapy b/bin/udapy
index 30cb259..ee388d9 100755
--- a/bin/udapy
+++ b/bin/udapy
@@ -132,5 +132,12 @@ if __name__ == "__main__":
     # "BrokenPipeError: [Errno 32] Broken pipe"
     try:
         runner.execute()
+        # Report errors when writing the rest of the output (e.g. no space left on device).
+        sys.stdout.flush()
     except BrokenPipeError:
         pass
+    except SystemExit as ex:
+        # sys.exit() called in a block does not trigger sys.excepthook.
+        if ex.code not in (None, 0):
+            _unhandled_exception_occurred = True
+        raise
-- 
2.43.0


From 89685c80dbe5a9a7ccaedc76ae8f8a00b53024c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 086/150] =?UTF-8?q?fix:=20parameter=20values=20such=20as?=
 =?UTF-8?q?=20"=C2=B2"=20are=20not=20numbers?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/core/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..1a4e9d6 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -60,7 +60,7 @@ def _parse_command_line_arguments(scenario):
                 'Block attribute pair %r without a prior block name', token)
 
         # Put it as a new argument for the previous block
-        if attribute_value.isdigit():
+        if attribute_value.isdecimal():
             attribute_value = int(attribute_value)
         block_args[-1][attribute_name] = attribute_value
 
-- 
2.43.0


From e97bafa94cec2a38672aabe75e673e923c2d5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 087/150] fix: util.Eval mwt= must not skip tokens when the
 code removes them

---
 udapi/block/util/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/eval.py b/udapi/block/util/eval.py
index 0e062f3..2ab311c 100644
--- a/udapi/block/util/eval.py
+++ b/udapi/block/util/eval.py
@@ -123,7 +123,7 @@ class Eval(Block):
                 exec(self.expand_eval_code(self.node))
 
         if self.mwt:
-            for mwt in tree.multiword_tokens:
+            for mwt in list(tree.multiword_tokens):
                 this = mwt
                 exec(self.expand_eval_code(self.mwt))
 
-- 
2.43.0


From 56c8473d8c24709fafe5a9d6683e18a2e85f7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 088/150] fix: filelists with absolute paths, empty lines and
 @- must work

---
 udapi/core/files.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..c576157 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -3,7 +3,6 @@
 import glob
 import io
 import sys
-import os.path
 import bz2
 import gzip
 import lzma
@@ -69,12 +68,13 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
-            directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            if token == '@-':
+                lines = sys.stdin.readlines()
+            else:
+                with open(token[1:]) as filelist:
+                    lines = filelist.readlines()
+            filenames = [line.rstrip('\n') for line in lines]
+            filenames = [f for f in filenames if f]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From 0feb2aae7538033c64c23c1dfb669aee11f4422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 089/150] fix: ud.FixRoot: skip trees without words

---
 udapi/block/ud/fixroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixroot.py b/udapi/block/ud/fixroot.py
index be972d8..8477156 100644
--- a/udapi/block/ud/fixroot.py
+++ b/udapi/block/ud/fixroot.py
@@ -26,6 +26,8 @@ class FixRoot(Block):
 
     def process_tree(self, root):
         rchildren = root.children
+        if not rchildren:
+            return
         if len(rchildren) > 1:
             for i in range(len(rchildren)-1):
                 rchildren[i+1].parent = rchildren[0]
-- 
2.43.0


From e65463c292d3be2da4eb7ade8ab2ab65f07e7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 090/150] fix: ud.FixChain: flatten also chains leading from
 right to left

---
 udapi/block/ud/fixchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixchain.py b/udapi/block/ud/fixchain.py
index b3a586f..ed5a0de 100644
--- a/udapi/block/ud/fixchain.py
+++ b/udapi/block/ud/fixchain.py
@@ -14,5 +14,5 @@ class FixChain(Block):
 
     def process_node(self, node):
         for deprel in self.deprels:
-            if node.udeprel == deprel and node.parent.udeprel == deprel:
+            while node.udeprel == deprel and node.parent.udeprel == deprel:
                 node.parent = node.parent.parent
-- 
2.43.0


From 4c5eb65b85574aed4feea2227bfa15793f87a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 091/150] fix: ud.FixRightheaded: fix also nested right-headed
 relations

---
 udapi/block/ud/fixrightheaded.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/fixrightheaded.py b/udapi/block/ud/fixrightheaded.py
index 045278d..684d5ef 100644
--- a/udapi/block/ud/fixrightheaded.py
+++ b/udapi/block/ud/fixrightheaded.py
@@ -20,14 +20,15 @@ class FixRightheaded(Block):
         self.deprels = deprels.split(',')
 
     def process_node(self, node):
-        for deprel in self.deprels:
-            if node.udeprel == deprel and node.precedes(node.parent):
-                orig_parent = node.parent
-                node.parent = orig_parent.parent
-                if deprel != 'conj':
-                    for child in orig_parent.children:
-                        child.parent = node
-                orig_parent.parent = node
-                head_deprel = orig_parent.deprel
-                orig_parent.deprel = node.deprel
-                node.deprel = head_deprel
+        # When swapped with its parent, the node gets its deprel, so it may need to be swapped again.
+        while node.udeprel in self.deprels and node.precedes(node.parent):
+            orig_parent = node.parent
+            deprel = node.udeprel
+            node.parent = orig_parent.parent
+            if deprel != 'conj':
+                for child in orig_parent.children:
+                    child.parent = node
+            orig_parent.parent = node
+            head_deprel = orig_parent.deprel
+            orig_parent.deprel = node.deprel
+            node.deprel = head_deprel
-- 
2.43.0


From 81999cce5ff4eb765981244c3922610b7d6749b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 092/150] fix: ud.FixPunct: do not pair punctuation with words
 which are not punctuation

---
 udapi/block/ud/fixpunct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 854a24a..ff77a80 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -221,6 +221,8 @@ class FixPunct(Block):
             return
         nested_level = 0
         for node in root.descendants[opening_node.ord:]:
+            if node.form in (closing_punct, opening_node.form) and not self._is_punct(node):
+                continue
             if node.form == closing_punct:
                 if nested_level > 0:
                     nested_level -= 1
-- 
2.43.0


From 8653f8210e1d08f6b3c08aebd47364c3abec6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 093/150] fix: ud.FixPunct: skip trees without words

---
 udapi/block/ud/fixpunct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index ff77a80..690ca0a 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -109,7 +109,7 @@ class FixPunct(Block):
 
         # Check if the subroot is still marked with deprel=root.
         # This may not hold if the original subroot was a paired punctuation, which was rehanged.
-        if root.children[0].udeprel != 'root':
+        if root.children and root.children[0].udeprel != 'root':
             root.children[0].udeprel = 'root'
             if self.copy_to_enhanced:
                 root.children[0].deps = [{'parent': root, 'deprel': 'root'}]
-- 
2.43.0


From dfed0c1695a4d19c5e47be0517b077cc4a9b0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 094/150] fix: ud.FixPunct: do not attach punctuation to
 brackets and quotes

---
 udapi/block/ud/fixpunct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 690ca0a..cbcabb3 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -144,12 +144,12 @@ class FixPunct(Block):
         l_cand, r_cand = node.prev_node, node.next_node
         if node.form in FINAL_PUNCT:
             r_cand = None
-        while l_cand.ord > 0 and l_cand.upos == 'PUNCT':
+        while l_cand.ord > 0 and self._is_punct(l_cand):
             if self._punct_type[l_cand.ord] == 'opening' and l_cand.parent != node:
                 l_cand = None
                 break
             l_cand = l_cand.prev_node
-        while r_cand is not None and r_cand.upos == 'PUNCT':
+        while r_cand is not None and self._is_punct(r_cand):
             if self._punct_type[r_cand.ord] == 'closing' and r_cand.parent != node:
                 r_cand = None
                 break
-- 
2.43.0


From 34b61851da6fb16abb39c56e33c6b365becae187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 095/150] fix: ud.ComplyWithText: deleting words at the end of
 the sentence

---
 udapi/block/ud/complywithtext.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..57eb5a9 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -162,13 +162,13 @@ class ComplyWithText(Block):
         for diff in orig_diffs:
             edit, tree_lo, tree_hi, text_lo, text_hi = diff
             if edit != 'insert':
-                if tree_chars[tree_lo] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_lo] == ' ':
                     tree_lo += 1
-                if tree_chars[tree_hi - 1] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text_lo < text_hi and text[text_lo] == ' ':
                     text_lo += 1
-                if text[text_hi - 1] == ' ':
+                if text_lo < text_hi and text[text_hi - 1] == ' ':
                     text_hi -= 1
             old = tree_chars[tree_lo:tree_hi]
             new = text[text_lo:text_hi]
-- 
2.43.0


From 139b152b242317203469c91bbedc577c80443882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 096/150] fix: ud.ComplyWithText: differences next to or inside
 multi-word tokens

---
 udapi/block/ud/complywithtext.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 57eb5a9..6a62cde 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -227,6 +227,8 @@ class ComplyWithText(Block):
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo]
+                    if isinstance(next_node, MWT):
+                        next_node = next_node.words[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -236,7 +238,7 @@ class ComplyWithText(Block):
                                     _diff2str(diff, tree_chars, text))
             elif edit == 'delete':
                 nodes = [n for n in char_nodes[tree_lo:tree_hi] if n is not None]
-                if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
+                if all(regex.fullmatch('\p{P}+', n.form) and not isinstance(n, MWT) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
                             node.remove(children='rehang')
@@ -268,7 +270,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not isinstance(node, MWT):
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -280,8 +282,9 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        word = node.words[-1] if isinstance(node, MWT) else node
+                        new = word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(word)
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -309,8 +312,9 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                word = node.words[-1] if isinstance(node, MWT) else node
+                new = word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(word)
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
-- 
2.43.0


From 3e029f07f0e4a9d1a9079d08d3eefb340378fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 097/150] fix: ud.GoeswithFromText: multi-word tokens written
 with a space

---
 udapi/block/ud/goeswithfromtext.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udapi/block/ud/goeswithfromtext.py b/udapi/block/ud/goeswithfromtext.py
index fe419fa..09a0302 100644
--- a/udapi/block/ud/goeswithfromtext.py
+++ b/udapi/block/ud/goeswithfromtext.py
@@ -8,6 +8,7 @@ Author: Martin Popel
 import logging
 
 from udapi.core.block import Block
+from udapi.core.mwt import MWT
 
 
 class GoeswithFromText(Block):
@@ -80,6 +81,10 @@ class GoeswithFromText(Block):
                     assert len_raw_form <= len(text)
                 raw_form = text[:len_raw_form]
                 text = text[len_raw_form:]
+                if isinstance(node, MWT):
+                    logging.warning('Multi-word token %s cannot be split with goeswith', node.form)
+                    text = text.lstrip()
+                    continue
                 tokens = raw_form.split(' ')
                 node.form = tokens[0]
                 if not self.keep_lemma:
-- 
2.43.0


From aec3de64773a024783665b06df79c2925ec58d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 098/150] =?UTF-8?q?fix:=20ud.SetSpaceAfter:=20decide=20abo?=
 =?UTF-8?q?ut=20the=20ambiguous=20=E2=80=9C=20in=20each=20sentence=20separ?=
 =?UTF-8?q?ately?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/block/ud/setspaceafter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..f89f1a6 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -31,7 +31,7 @@ class SetSpaceAfter(Block):
         # and treat odd-indexed ones as opening and even-indexed ones as closing.
         # Otherwise (odd number, e.g. when quoting multiple sentences), don't remove any space.
         matching_quotes = not bool(count_of_form['"'] % 2)
-        not_after, not_before = self.not_after, self.not_before
+        not_after, not_before = self.not_after.copy(), self.not_before.copy()
         odd_indexed_quote = True
 
         # Some languages use directed „quotes“ and some “quotes”,
@@ -43,7 +43,7 @@ class SetSpaceAfter(Block):
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
-- 
2.43.0


From 443e552cb15f8a6440355ccf6f16ffd9b2314e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 099/150] fix: ud.SetSpaceAfter: sentences with no or one word

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index f89f1a6..820239b 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 036230036108769ac9aa1bd2d0df62be38dee1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 100/150] fix: ud.ComplyWithText: add sentence-initial
 punctuation followed by a space

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 6a62cde..0b8d70e 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -224,7 +224,7 @@ class ComplyWithText(Block):
             if edit == 'equal':
                 pass
             elif edit == 'insert':
-                forms = text[text_lo:text_hi].split(' ')
+                forms = text[text_lo:text_hi].split()
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo]
                     if isinstance(next_node, MWT):
-- 
2.43.0


From 368daf8382a50e50a45ef751513ef68675ca6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 101/150] fix: ud.ComplyWithText: do not mark words as typos if
 only a space was added after them

---
 udapi/block/ud/complywithtext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 0b8d70e..9f3c4f1 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -260,6 +260,10 @@ class ComplyWithText(Block):
         nodes_str = ' '.join([n.form for n in nodes])  # just for debugging
         node = nodes[0]
 
+        # The forms may differ only in the following space, which will be solved with SpaceAfter.
+        if len(nodes) == 1 and node.form == form:
+            return
+
         # First, solve the cases when the text contains a space.
         if ' ' in form:
             node_form = node.form
-- 
2.43.0


From 263bbf5aa2d0f86e1c2539243a85d8a132a76911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 102/150] fix: segment.Simple: number the bundles

---
 udapi/block/segment/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..127d738 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 0518b13a2a7447dd889cee4d56934b53ac28ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 103/150] fix: segment.Simple: the abbreviation "e.g." does not
 end a sentence

---
 udapi/block/segment/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 127d738..91f5994 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
-- 
2.43.0


From aa7401755fabb47b87a20217034a11bf0e45c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 104/150] fix: ud.RemoveMwt: remove all multi-word tokens

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From 4dd6c7af0bca042ec2faec518cc9e14b173243dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 105/150] fix: ud.AddMwt: do not duplicate MISC on the token if
 it is copied to a word

---
 udapi/block/ud/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/addmwt.py b/udapi/block/ud/addmwt.py
index 996f4dc..d5942af 100644
--- a/udapi/block/ud/addmwt.py
+++ b/udapi/block/ud/addmwt.py
@@ -56,10 +56,10 @@ class AddMwt(Block):
                         # However, SpaceAfter should be annotated only on the token level,
                         # so make sure it is not accidentally copied on the word level.
                         if attr == 'misc':
-                            orig_attr['misc'].clear()
+                            mwt_misc.clear()
                             for a in 'SpaceAfter SpacesAfter SpacesBefore'.split():
                                 if new_node.misc[a]:
-                                    orig_attr['misc'][a] = new_node.misc[a]
+                                    mwt_misc[a] = new_node.misc[a]
                                     del new_node.misc[a]
 
                     elif attr == 'feats' and '*' in values[i]:
-- 
2.43.0


From 031d12318428dd0b14dce875c9b15af4217546bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 106/150] fix: ud.JoinToken: the first token of a sentence
 cannot be joined

---
 udapi/block/ud/jointoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index 43d2b30..6cc2276 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -59,7 +59,7 @@ class JoinToken(Block):
         if self.misc_value and node.misc[self.misc_name] != self.misc_value:
             return
         prevnode = node.prev_node
-        if not prevnode:
+        if prevnode.is_root():
             logging.warning("MISC %s cannot be used at the first token of a sentence." % self.misc_name)
             node.misc['Bug'] = 'JoiningTokenNotSupportedHere'
             return
-- 
2.43.0


From 273c5a4bffb5aa217f7629c41108f380540c884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 107/150] fix: ud.SplitUnderscoreTokens: words without a lemma

---
 udapi/block/ud/splitunderscoretokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 44575e0..16ec7f7 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -46,7 +46,7 @@ class SplitUnderscoreTokens(Block):
             forms = node.form.split('_')
             if self.lemma == 'form':
                 node.lemma = node.form
-            lemmas = node.lemma.split('_')
+            lemmas = node.lemma.split('_') if node.lemma is not None else [None] * len(forms)
             if len(forms) != len(lemmas):
                 logging.warning("Different number of underscores in %s and %s, skipping.",
                                 node.form, node.lemma)
-- 
2.43.0


From 26b197e69ce8b8d43cbdfe7c1d2123861bc6c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 108/150] fix: ud.SplitUnderscoreTokens: do not create words
 with empty forms

---
 udapi/block/ud/splitunderscoretokens.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 16ec7f7..d3c9d43 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -44,6 +44,9 @@ class SplitUnderscoreTokens(Block):
     def process_node(self, node):
         if node.form != '_' and '_' in node.form:
             forms = node.form.split('_')
+            if not all(forms):
+                logging.warning('Splitting %s would create a word without a form, skipping.', node.form)
+                return
             if self.lemma == 'form':
                 node.lemma = node.form
             lemmas = node.lemma.split('_') if node.lemma is not None else [None] * len(forms)
-- 
2.43.0


From 2765a2d7cfc90ea6ef6c1d0992585142addfa960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 109/150] fix: ud.SplitUnderscoreTokens: words of a multi-word
 token

---
 udapi/block/ud/splitunderscoretokens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index d3c9d43..3264461 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -64,6 +64,10 @@ class SplitUnderscoreTokens(Block):
                 last_node = new_node
             node.form = forms[0]
             node.lemma = lemmas[0]
+            mwt = node.multiword_token
+            if mwt:
+                new_nodes = node.root.descendants[node.ord:last_node.ord]
+                node.root.create_multiword_token(mwt.words + new_nodes, mwt.form, mwt.misc, mwt.feats)
             if node.misc['SpaceAfter'] == 'No':
                 del node.misc['SpaceAfter']
                 last_node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From da84f5e7e3860bb1f414b0fceac11e15bb567134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 110/150] fix: ud.FixMwtSpace: keep SpaceAfter=No of the
 removed multi-word token

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..6921853 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.misc['SpaceAfter']:
+                            mwt.words[-1].misc['SpaceAfter'] = mwt.misc['SpaceAfter']
                         mwt.remove()
-- 
2.43.0


From 3a12b92e56e842b0877ba47306ee540014cc57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 111/150] fix: ud.AddMwt: keep FEATS of a multi-word token
 which is being extended

---
 udapi/block/ud/addmwt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/addmwt.py b/udapi/block/ud/addmwt.py
index d5942af..a1738ab 100644
--- a/udapi/block/ud/addmwt.py
+++ b/udapi/block/ud/addmwt.py
@@ -18,6 +18,7 @@ class AddMwt(Block):
         # Defaults for the newly created MWT
         mwt_misc = node.misc.copy()
         mwt_form = node.form
+        mwt_feats = None
 
         forms = analysis['form'].split()
         main = analysis.get('main', 0)
@@ -80,13 +81,14 @@ class AddMwt(Block):
         if node.multiword_token:
             mwt_words = node.multiword_token.words
             mwt_form = node.multiword_token.form
+            mwt_feats = node.multiword_token.feats
             if node.multiword_token.misc:
                 mwt_misc.update(node.multiword_token.misc)
             node.multiword_token.remove()
             mwt_words[mwt_words.index(node):mwt_words.index(node)+1] = nodes
             nodes = mwt_words
 
-        mwt = node.root.create_multiword_token(nodes, mwt_form, mwt_misc)
+        mwt = node.root.create_multiword_token(nodes, mwt_form, mwt_misc, mwt_feats)
         self.postprocess_mwt(mwt)
 
     def multiword_analysis(self, node):
-- 
2.43.0


From 74f1f8d3f1a59d2a24cf5872358f8f486aeba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 112/150] fix: ud.es.AddMwt: a contraction at the end of a
 sentence

---
 udapi/block/ud/es/addmwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 92f8016..67d439b 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -101,6 +101,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
     def postprocess_mwt(self, mwt):
         if mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
             head = mwt.words[1].next_node
+            if head is None:
+                return
             while head.upos not in {'NOUN', 'PROPN'}:
                 if head.parent.precedes(head) or head.is_root():
                     head = mwt.words[1].next_node
-- 
2.43.0


From ee3dfef7966a2bb3c93c257ca8aadf1c54ca7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 113/150] fix: ud.fr.AddMwt: a contraction at the end of a
 sentence

---
 udapi/block/ud/fr/addmwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fr/addmwt.py b/udapi/block/ud/fr/addmwt.py
index 948a927..e43280f 100644
--- a/udapi/block/ud/fr/addmwt.py
+++ b/udapi/block/ud/fr/addmwt.py
@@ -62,6 +62,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
         if mwt.form.lower() in {'du', 'des', 'au', 'aux'}:
             if mwt.words[0].descendants[-1] != mwt.words[1]:
                 pass
+            elif mwt.words[1].next_node is None:
+                pass
             elif mwt.words[0].precedes(mwt.words[0].parent):
                 mwt.words[1].parent = mwt.words[0].parent
             else:
-- 
2.43.0


From d0e0430876ee15ee89e8b6398f0954170640b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 114/150] fix: ud.cs.AddMwt: a contraction attached to the root
 as fixed

---
 udapi/block/ud/cs/addmwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/cs/addmwt.py b/udapi/block/ud/cs/addmwt.py
index 7f3a428..129bfc1 100644
--- a/udapi/block/ud/cs/addmwt.py
+++ b/udapi/block/ud/cs/addmwt.py
@@ -184,5 +184,6 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
         return None
 
     def postprocess_mwt(self, mwt):
-        if mwt.words[0].deprel == 'fixed' and mwt.words[0].parent.parent.upos == 'VERB':
+        if (mwt.words[0].deprel == 'fixed' and not mwt.words[0].parent.is_root()
+                and mwt.words[0].parent.parent.upos == 'VERB'):
             mwt.words[1].parent = mwt.words[0].parent.parent
-- 
2.43.0


From c5e783e468e53e6069b1c0b158eaede96c02a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 115/150] fix: read.AddText: end of the text

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..d001474 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From 5ad6f9c5171bcde456e2560c6288348c89fa3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 116/150] fix: read.AddText: finish after a text which does not
 match

---
 udapi/block/read/addtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index d001474..f1d00cd 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -31,6 +31,7 @@ class AddText(BaseReader):
         if filehandle is None:
             self.finished = True
             return
+        self.finished = not self.files.has_next_file()
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
         while i < end and text[i].isspace():
@@ -56,4 +57,3 @@ class AddText(BaseReader):
                     logging.warning('Node %s does not match text "%s"', node, text[i:i+20])
                     return
             root.text = root.compute_text()
-        self.finished = not self.files.has_next_file()
-- 
2.43.0


From b7bbee960c6d9c0f48edebfa1eb1426b2858d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 117/150] fix: read.AddText: empty lines after a trailing space

---
 udapi/block/read/addtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index f1d00cd..f0e15a2 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -47,9 +47,10 @@ class AddText(BaseReader):
                     i += len(node.form)
                     if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
-                        was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
+                        start = i
                         while i < end and text[i].isspace():
                             i += 1
+                        was_newpar = '\n\n' in text[start:i]
                     else:
                         node.misc['SpaceAfter'] = 'No'
                         was_newpar = False
-- 
2.43.0


From ec174b541e640affeb69d9bfbaeb584b5bc9b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 118/150] fix: read.AddSentences: continue with the next file

---
 udapi/block/read/addsentences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index f676fbe..a1873a6 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -44,6 +44,8 @@ class AddSentences(BaseReader):
 
         for bundle in document.bundles:
             line = self.filehandle.readline()
+            while line == '' and self.files.has_next_file():
+                line = self.next_filehandle().readline()
             if line == '':
                 raise IOError('File does not have enough lines')
             root = bundle.get_tree(zone=self.zone)
-- 
2.43.0


From 6d05d86a7ebc832e311096932b066950179f797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 119/150] fix: read.AddSentences: comments without a final
 newline

---
 udapi/block/read/addsentences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index a1873a6..a575c04 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -52,5 +52,7 @@ class AddSentences(BaseReader):
             if self.into == 'text':
                 root.text = line.rstrip()
             else:
+                if root.comment and not root.comment.endswith('\n'):
+                    root.comment += '\n'
                 root.comment += ' ' + self.into + " = " + line.rstrip() + "\n"
         self.finished = not self.files.has_next_file()
-- 
2.43.0


From 7a96141c52a9601917c2b008912476f6372a0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 120/150] fix: read.Sentences: newdoc_if_empty_line with no
 sentences

---
 udapi/block/read/sentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..2d25cf5 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -59,5 +59,5 @@ class Sentences(BaseReader):
 
     # The first line in a file also marks a start of new document
     def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
+        if self.newdoc_if_empty_line and document.bundles:
             document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From 9443ad4e5f21d3a566af570be969c212e3095069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 121/150] fix: read.Conll: the form _

---
 udapi/block/read/conll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..b790799 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -95,7 +95,7 @@ class Conll(udapi.block.read.conllu.Conllu):
                     raise ValueError(f"Node {node} ord mismatch: {value}, but expecting {node._ord} at:\n{line}")
             elif attribute_name == 'deps':
                 setattr(node, 'raw_deps', value)
-            elif attribute_name != '_' and value != '_':
+            elif attribute_name != '_' and (value != '_' or attribute_name == 'form'):
                 setattr(node, attribute_name, value)
 
         nodes.append(node)
-- 
2.43.0


From a5e6851ac201123823e04f6341d2e21904d325e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 122/150] fix: read.Conll: negative heads are out of range

---
 udapi/block/read/conll.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index b790799..5e98cab 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -129,10 +129,9 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-- 
2.43.0


From 188754d3ed4aca8a370db7af0d0d61367433323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 123/150] fix: read.Conll: multi-word tokens and empty nodes
 with any order of columns

---
 udapi/block/read/conll.py   | 20 ++++++++++++--------
 udapi/block/read/conllup.py |  5 +++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 5e98cab..ef1d83f 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -65,14 +65,16 @@ class Conll(udapi.block.read.conllu.Conllu):
                 raise RuntimeError('Wrong number of columns in %r' % line)
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
+        columns = dict(zip(self.node_attributes, fields))
+        word_id = columns.get('ord', '')
+        if '-' in word_id:
             mwts.append(fields)
             return
-        if '.' in fields[0]:
-            empty = root.create_empty_child(form=fields[1], lemma=fields[2], upos=fields[3],
-                                            xpos=fields[4], feats=fields[5], misc=fields[9])
-            empty.ord = fields[0]
-            empty.raw_deps = fields[8]  # TODO
+        if '.' in word_id:
+            attrs = {a: columns[a] for a in 'form lemma upos xpos feats misc'.split() if a in columns}
+            empty = root.create_empty_child(**attrs)
+            empty.ord = word_id
+            empty.raw_deps = columns.get('deps', '_')  # TODO
             return
 
         # This implementation is slower than in read.Conllu,
@@ -154,8 +156,10 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # Create multi-word tokens.
         for fields in mwts:
-            range_start, range_end = fields[0].split('-')
+            columns = dict(zip(self.node_attributes, fields))
+            range_start, range_end = columns['ord'].split('-')
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=columns.get('form'), feats=columns.get('feats'),
+                                        misc=columns.get('misc'))
 
         return root
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 16d83d0..b1d8bc6 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -62,10 +62,11 @@ class Conllup(udapi.block.read.conll.Conll):
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
 
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
+        word_id = dict(zip(self.node_attributes, fields)).get('ord', '')
+        if '-' in word_id:
             mwts.append(fields)
             return
-        if '.' in fields[0]:
+        if '.' in word_id:
             raise NotImplementedError("Empty nodes in CoNLL-UPlus not implement yet in read.Conllup")
 
         # This implementation is slower than in read.Conllu,
-- 
2.43.0


From de35b38f6bbb1ea72366495cabdc4ce2bb4161fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 124/150] fix: read.Conll: files without the head column

---
 udapi/block/read/conll.py   | 2 ++
 udapi/block/read/conllup.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index ef1d83f..d9f553f 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -100,6 +100,8 @@ class Conll(udapi.block.read.conllu.Conllu):
             elif attribute_name != '_' and (value != '_' or attribute_name == 'form'):
                 setattr(node, attribute_name, value)
 
+        if 'head' not in self.node_attributes:
+            parents.append(0)
         nodes.append(node)
 
     # Acknowledged code duplication with read.Conllu
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index b1d8bc6..6c60c67 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -105,4 +105,6 @@ class Conllup(udapi.block.read.conll.Conll):
         for attribute_name, value in nonstandard_attrs:
             node.misc[attribute_name.capitalize()] = value
 
+        if 'head' not in self.node_attributes:
+            parents.append(0)
         nodes.append(node)
-- 
2.43.0


From 061d99f9d5549467bfc8603a442d22ecc830e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 125/150] fix: read.Conllup: use the header of each file

---
 udapi/block/read/conllup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 6c60c67..ab5515d 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -37,13 +37,14 @@ class Conllup(udapi.block.read.conll.Conll):
         """
         super().__init__(**kwargs)
         self.save_global_columns = save_global_columns
-        if attributes == 'autodetect':
+        self.autodetect = attributes == 'autodetect'
+        if self.autodetect:
             self.node_attributes = None
         else:
             self.node_attributes = attributes.split(',')
 
     def parse_comment_line(self, line, root):
-        if self.node_attributes is None:
+        if self.autodetect:
             global_columns_match = RE_GLOBAL_COLUMNS.match(line)
             if global_columns_match is None:
                 return super().parse_comment_line(line, root)
-- 
2.43.0


From 77301d3607ae7e078ced31e569727a6152057396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 126/150] fix: read.Vislcg: multi-word token at the end of a
 sentence

---
 udapi/block/read/vislcg.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..204347d 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -30,24 +30,11 @@ class Vislcg(BaseReader):
                 parents.append(parent_ord)
                 continue
 
-            if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
-                words = []
+            self._finish_token(words, form, root)
+            words = []
             form = line[2:-2]
 
-        if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+        self._finish_token(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -60,6 +47,21 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _finish_token(words, form, root):
+        if not words:
+            return
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
     @staticmethod
     def _node(line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
-- 
2.43.0


From 90eccc27b4f7b267d62216e9d9f344c5b8200993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 127/150] fix: read.Vislcg: all features

---
 udapi/block/read/vislcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 204347d..1517351 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -72,7 +72,7 @@ class Vislcg(BaseReader):
         lemma = line[1:end_quote_pos]
         fields = line[end_quote_pos + 1:].split()
         xpos = fields[0]
-        feats_list = fields[3:-2]
+        feats_list = fields[1:-2]
         feats = '|'.join(feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From c8c003b141e9f574e5c422afa549dd0783d677aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 128/150] fix: read.Vislcg: more empty lines

---
 udapi/block/read/vislcg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 1517351..752f07a 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -19,6 +19,8 @@ class Vislcg(BaseReader):
         for line in self.filehandle:
             line = line.rstrip()
             if line == '':
+                if not words and form is None:
+                    continue
                 break
             if line[0] == '#':
                 root.comment += line[1:] + "\n"
-- 
2.43.0


From ada675d9a9f8df98d174d07d75f94a92c88a0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 129/150] fix: read.Vislcg: unescape special characters

---
 udapi/block/read/vislcg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 752f07a..67b43e5 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,6 +1,7 @@
 """Vislcg is a reader block the VISL-cg format."""
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
+from udapi.block.write.vislcg import ESCAPE_TABLE
 
 
 class Vislcg(BaseReader):
@@ -34,7 +35,7 @@ class Vislcg(BaseReader):
 
             self._finish_token(words, form, root)
             words = []
-            form = line[2:-2]
+            form = self._unescape(line[2:-2])
 
         self._finish_token(words, form, root)
 
@@ -49,6 +50,12 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _unescape(string):
+        for char, escaped in reversed(list(ESCAPE_TABLE.items())):
+            string = string.replace(escaped, char)
+        return string
+
     @staticmethod
     def _finish_token(words, form, root):
         if not words:
@@ -71,8 +78,8 @@ class Vislcg(BaseReader):
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
-        fields = line[end_quote_pos + 1:].split()
+        lemma = Vislcg._unescape(line[1:end_quote_pos])
+        fields = [Vislcg._unescape(f) for f in line[end_quote_pos + 1:].split()]
         xpos = fields[0]
         feats_list = fields[1:-2]
         feats = '|'.join(feats_list) if feats_list else '_'
-- 
2.43.0


From 1b52b38a37ea967e7b0af155859aabe78fb1181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 130/150] fix: read.Conll: do not leave all words among the
 children of the root

---
 udapi/block/read/conll.py   | 4 +++-
 udapi/block/read/conllup.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d9f553f..dc192fc 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -79,7 +79,9 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # This implementation is slower than in read.Conllu,
         # but it allows for arbitrary columns
-        node = root.create_child()
+        node = Node(root=root)
+        root._descendants.append(node)
+        node._ord = len(nodes)
         for (n_attribute, attribute_name) in enumerate(self.node_attributes):
             value = fields[n_attribute]
             if attribute_name == 'head':
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index ab5515d..c69c37a 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -72,7 +72,9 @@ class Conllup(udapi.block.read.conll.Conll):
 
         # This implementation is slower than in read.Conllu,
         # but it allows for arbitrary columns
-        node = root.create_child()
+        node = Node(root=root)
+        root._descendants.append(node)
+        node._ord = len(nodes)
         nonstandard_attrs = []
         for (n_attribute, attribute_name) in enumerate(self.node_attributes):
             value = fields[n_attribute]
-- 
2.43.0


From 1dd7a9c209a27f0678394fd59b24309e6b30937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 131/150] fix: is_nonprojective_gap of the technical root

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 5884334..b4efdff 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -965,7 +965,7 @@ class Node(object):
             node = node._parent
             ancestors.add(node)
         all_nodes = node._descendants
-        for left_node in all_nodes[:self._ord - 1]:
+        for left_node in all_nodes[:max(self._ord - 1, 0)]:
             if self.precedes(left_node._parent) and left_node._parent not in ancestors:
                 return True
         for right_node in all_nodes[self._ord:]:
-- 
2.43.0


From 0123d64c85c8333a3c4a8dfd3f738e7ef745c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 132/150] fix: ud.pt.AddHyphenMwt: keep the words attached to a
 hyphen

---
 udapi/block/ud/pt/addhyphenmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/pt/addhyphenmwt.py b/udapi/block/ud/pt/addhyphenmwt.py
index 9492b1a..cd3f944 100644
--- a/udapi/block/ud/pt/addhyphenmwt.py
+++ b/udapi/block/ud/pt/addhyphenmwt.py
@@ -31,7 +31,7 @@ class AddHyphenMwt(Block):
                 else:
                     compound_form = "".join(t.form for t in compound)
                     for hyphen in compound[1::2]:
-                        hyphen.remove()
+                        hyphen.remove(children='rehang')
                     root.create_multiword_token([w for w in words if w.form != '-'], compound_form)
                     root.text = None
             i += 1
-- 
2.43.0


From 025b45bcb704347e5f7019f1e1cbb51672385778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 133/150] fix: ud.FixPunct: crossing pairs of brackets

---
 udapi/block/ud/fixpunct.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index cbcabb3..eb459b6 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -279,8 +279,9 @@ class FixPunct(Block):
             # Sort the heads by their ords (this is not guaranteed because we were adding a mixture of
             # inside heads and inside parents of outside nodes).
             heads.sort(key=lambda x: x.ord)
-            opening_node.parent = heads[0]
-            closing_node.parent = heads[-1]
+            # In case of crossing pairs, some heads may be already attached below the other pair.
+            opening_node.parent = next((h for h in heads if not h.is_descendant_of(opening_node)), opening_node.parent)
+            closing_node.parent = next((h for h in heads[::-1] if not h.is_descendant_of(closing_node)), closing_node.parent)
 
         self._punct_type[opening_node.ord] = 'opening'
         self._punct_type[closing_node.ord] = 'closing'
@@ -291,14 +292,15 @@ class FixPunct(Block):
         # -- breaking the paired-marks-have-same-parent rule
         # in order to prevent the punct-nonproj-gap bug (recently checked by validator.py).
         if self._causes_gap(opening_node):
-            opening_node.parent = opening_node.next_node
-            while (opening_node.parent.ord < closing_node.ord - 1
-                and (opening_node.parent.upos == 'PUNCT' or opening_node.is_nonprojective()
-                or self._causes_gap(opening_node))):
-                    opening_node.parent = opening_node.parent.next_node
+            self._attach_to_nearest(opening_node, root.descendants[opening_node.ord:closing_node.ord - 1])
         if self._causes_gap(closing_node):
-            closing_node.parent = closing_node.prev_node
-            while (closing_node.parent.ord > opening_node.ord + 1
-                and (closing_node.parent.upos == 'PUNCT' or closing_node.is_nonprojective()
-                or self._causes_gap(closing_node))):
-                    closing_node.parent = closing_node.parent.prev_node
+            self._attach_to_nearest(closing_node, root.descendants[opening_node.ord:closing_node.ord - 1][::-1])
+
+    def _attach_to_nearest(self, node, candidates):
+        for cand in candidates:
+            # Crossing pairs: the other pair may be already attached to this punctuation.
+            if cand.is_descendant_of(node):
+                continue
+            node.parent = cand
+            if cand.upos != 'PUNCT' and not node.is_nonprojective() and not self._causes_gap(node):
+                return
-- 
2.43.0


From 2df10eddec01d3308ddc069c97bb5211c8e742dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 134/150] fix: ud.Convert1to2: remnants attached to the root or
 below another remnant

---
 udapi/block/ud/convert1to2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..1d89a7b 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -297,7 +297,14 @@ class Convert1to2(Block):
         if not remnants:
             return
 
-        (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
+        grandpa = remnants[0].parent.parent
+        if grandpa is None:
+            first_conjunct = root
+        else:
+            (first_conjunct, _) = find_minimal_common_treelet(grandpa, *remnants)
+        # A remnant (e.g. with another remnant deeper in its subtree) cannot be attached to itself.
+        while first_conjunct.deprel == 'remnant':
+            first_conjunct = first_conjunct.parent
         if first_conjunct == root:
             self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is root")
             return
-- 
2.43.0


From c8df85a71fcead48480c9f843000073bfc030970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 135/150] fix: ud.Convert1to2: nested head-final goeswith and
 flat

---
 udapi/block/ud/convert1to2.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index 1d89a7b..faf5af5 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -221,16 +221,18 @@ class Convert1to2(Block):
     @staticmethod
     def change_headfinal(node, deprel):
         """deprel=goeswith|flat|fixed|appos must be a head-initial flat structure."""
-        if node.udeprel == deprel and node.precedes(node.parent):
+        # The new head gets the deprel of the old one, so it may need to be moved up again.
+        while node.udeprel == deprel and node.precedes(node.parent):
             full_deprel = node.deprel
             old_head = node.parent
             all_goeswith = [n for n in old_head.children if n.udeprel == deprel]
             other_children = [n for n in old_head.children if n.udeprel != deprel]
-            all_goeswith[0].parent = old_head.parent
-            all_goeswith[0].deprel = old_head.deprel
+            node = all_goeswith[0]
+            node.parent = old_head.parent
+            node.deprel = old_head.deprel
             old_head.deprel = full_deprel
             for a_node in all_goeswith[1:] + other_children + [old_head]:
-                a_node.parent = all_goeswith[0]
+                a_node.parent = node
 
     def reattach_coordinations(self, node):
         """cc and punct in coordinations should depend on the immediately following conjunct."""
-- 
2.43.0


From 7f1744a2dc07f562cca033ed8e9c1cdb88436476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 136/150] fix: corefud.CountGaps: last paragraph of a document
 with mentions

---
 udapi/block/corefud/countgaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index fc45540..955ee36 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -54,7 +54,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
             if tree.newpar:
-                if not tree.newdoc and is_empty_par:
+                if curr_par and is_empty_par:
                     empty_pars.append(curr_par)
                 curr_par = []
                 is_empty_par = True
@@ -73,7 +73,7 @@ class CountGaps(Block):
             empty_seqs.append(curr_seq)
         newdoc_seq_counter = self._count_empty_seqs(empty_seqs)
         file_counters["seq"].update(newdoc_seq_counter)
-        if curr_par:
+        if curr_par and is_empty_par:
             empty_pars.append(curr_par)
         newdoc_par_counter = self._count_empty_seqs(empty_pars)
         file_counters["par"].update(newdoc_par_counter)
-- 
2.43.0


From d925c71dfbce22537abb0d6cf6acb33ae86d7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 137/150] fix: corefud.PrintMentions: do not leave Mark=1 on
 mentions over max_trees

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 072c8a2..610d281 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,9 +153,6 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
@@ -175,6 +172,8 @@ class PrintMentions(Block):
                         for form, count in counter.most_common(self.print_other_forms):
                             print(f' "{form}"({count})', end='')
                         print()
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 self.print_block.process_tree(mention.head.root)
                 for w in mention.words:
                     del w.misc['Mark']
-- 
2.43.0


From d7bf060ba40fef888eae869708fd984f8e672a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 138/150] fix: write.CorefHtml: several mentions crossing one
 mention

---
 udapi/block/write/corefhtml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..445ca32 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -360,7 +360,7 @@ class CorefHtml(BaseWriter):
         if m.other:
             title += f'\n{m.other}'
         span_id = ''
-        if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
+        if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m and not crossing:
             span_id = f'id="{_dom_esc(e.eid)}" '
         # The title should be always rendered left-to-right (e.g. "head=X", not "X=head"),
         # so for RTL languages, we need to use explicit dir="ltr" and insert a nested span with dir="rtl".
@@ -439,10 +439,11 @@ class CorefHtml(BaseWriter):
                     else:
                         new_opened.append(subspan)
                 opened = new_opened
-                print('</span>' * (len(endings) + len(brokens)), end='')
+                end_tag = '</span></span>' if self.rtl else '</span>'
+                print(end_tag * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From ded6fa5f1511d4d0847da88cc6715694b0709870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 139/150] fix: write.CorefHtml: escape characters which are
 special in HTML

---
 udapi/block/write/corefhtml.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 445ca32..18ea6cc 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -18,6 +18,7 @@ from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
 import udapi.block.write.html
 import gzip
+import html
 import sys
 import os
 import re
@@ -281,9 +282,9 @@ class CorefHtml(BaseWriter):
               '<th title="number of mentions">#m</th>'
               '<th title="a word best representing the entity">word</th></tr></thead>\n<tbody>')
         for entity in doc.coref_entities:
-            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
+            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{html.escape(entity.eid)}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{html.escape(self._representative_word(entity))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -359,6 +360,7 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title = html.escape(title)
         span_id = ''
         if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m and not crossing:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -386,12 +388,12 @@ class CorefHtml(BaseWriter):
         subspans.sort(reverse=True)
 
         if tree.newdoc:
-            print(f'<hr><h1>{tree.newdoc if tree.newdoc is not True else ""}</h1><hr>')
+            print(f'<hr><h1>{html.escape(tree.newdoc) if tree.newdoc is not True else ""}</h1><hr>')
         elif tree.newpar:
             print('<hr class="par">')
         opened, prev_node_mention = [], True
         rtl = ' dir="rtl"' if self.rtl else ""
-        print(f'<p class="sentence" data-id="{tree.sent_id}" id="{_id(tree)}"{rtl}>')
+        print(f'<p class="sentence" data-id="{html.escape(str(tree.sent_id))}" id="{_id(tree)}"{rtl}>')
         for node in nodes_and_empty:
             if not prev_node_mention and subspans and subspans[-1].words[0] == node:
                 print('</span>', end='')
@@ -408,7 +410,7 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(html.escape(node.form), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
-- 
2.43.0


From d64be71d7ce2e8007e3ad845e25a7b486c806956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 140/150] fix: corefud.Stats: heads without UPOS

---
 udapi/block/corefud/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 5368cab..c2d63b5 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -69,8 +69,9 @@ class Stats(Block):
                 self.counter[f"m_len_{min(non_empty, self.m_len_max)}"] += 1
                 if self.report_details:
                     upos = 'other'
-                    if not self.selected_upos or mention.head.upos in self.selected_upos:
-                        upos = mention.head.upos
+                    head_upos = mention.head.upos or '_'
+                    if not self.selected_upos or head_upos in self.selected_upos:
+                        upos = head_upos
                     self.counter['m_head_upos_' + upos] += 1
                     self.counter['m_with_empty'] += 1 if all_words > non_empty else 0
                     self.counter['m_with_gaps'] += 1 if ',' in mention.span else 0
-- 
2.43.0


From 52d73c9b18dec28a302103eec2921003ba132d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 141/150] fix: corefud.FixInterleaved: do not merge into an
 already deleted mention

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..a3ba158 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -80,5 +80,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From 0b82479230fea10b6ea531be6658c757b96cc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 142/150] fix: corefud.FixInterleaved: fix also pairs created
 by enlarging a mention

---
 udapi/block/corefud/fixinterleaved.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index a3ba158..49d57ab 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -16,10 +16,16 @@ class FixInterleaved(Block):
         self.nested_same_subspan = nested_same_subspan
 
     def process_tree(self, tree):
+        # An enlarged mention may be interleaved with mentions compared before.
+        while self._merge_interleaved(tree):
+            pass
+
+    def _merge_interleaved(self, tree):
         mentions, deleted = set(), set()
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
                 mentions.add(m)
+        mentions = sorted(mentions)
 
         for mA, mB in itertools.combinations(mentions, 2):
             if mA in deleted or mB in deleted:
@@ -82,3 +88,5 @@ class FixInterleaved(Block):
                     pass
                 deleted.add(mA)
                 break
+
+        return bool(deleted)
-- 
2.43.0


From 9231d2fbfcb4f9444262ed5fcb46976599944e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:07 +0000
Subject: [PATCH 143/150] fix: read.OldCorefUD: bridging relations with a colon

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 73e05f3..56d2eb2 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -62,7 +62,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
                 if bridging_str:
                     mention._bridging = BridgingLinks(mention)
                     for link_str in bridging_str.split(','):
-                        target, relation = link_str.split(':')
+                        target, relation = link_str.split(':', 1)
                         target = self._fix_id(target)
                         if target == eid:
                             _error("Bridging cannot self-reference the same entity: " + target, strict)
-- 
2.43.0


From 90876b5c1719f18d59fda5a4a2854cad7092ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:08 +0000
Subject: [PATCH 144/150] fix: read.Ccv: end of file when reading tree by tree

---
 udapi/block/read/ccv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..dd77b78 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -18,6 +18,7 @@ class Ccv(BaseReader):
     def __init__(self, tokenize=True, **kwargs):
         self.tokenize = tokenize
         self._cache = None
+        self._cached_file = None
         super().__init__(**kwargs)
 
     @staticmethod
@@ -31,7 +32,10 @@ class Ccv(BaseReader):
     def read_tree(self):
         if self._cache:
             return self._cache.pop()
+        elif self.filehandle is self._cached_file:
+            return None
         else:
+            self._cached_file = self.filehandle
             trees = self.read_trees()
             if not trees:
                 return None
-- 
2.43.0


From 3b08da83d9dd02e3259f6d83c7dd1256781252f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:08 +0000
Subject: [PATCH 145/150] fix: corefud.Load strict=0: deleted cross-sentence
 mentions

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index b095745..54e3e8c 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -643,6 +643,7 @@ def load_coref_from_misc(doc, strict=True):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From 2f263c12c9910ce0e0929c4b5e997cae818cbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:32 +0000
Subject: [PATCH 146/150] fix: ud.FixCompoundName converts names without
 numbers (not only names with numbers)

---
 udapi/block/ud/fixcompoundname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 90596e3..4ac6a6c 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -29,7 +29,7 @@ class FixCompoundName(Block):
             # The Hindi treebank tags dates (['30', 'navaṁbara'], ['disaṁbara', '1993']) as PROPN compounds.
             # This is wrong but it is also different from personal names we are targeting here.
             # Hence, we will skip "names" that contain numbers.
-            if any(re.search(r"\d", x.form) for x in namewords):
+            if not any(re.search(r"\d", x.form) for x in namewords):
                 #logging.info(str([x.misc['Translit'] for x in namewords]))
                 ###!!! We currently cannot transform enhanced dependencies.
                 ###!!! If we proceed, the basic tree would diverge from the enhanced dependencies.
-- 
2.43.0


From f5c657cb4575e82e000b3e24374c5b11f6890e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:32 +0000
Subject: [PATCH 147/150] fix: ud.de.FixGSD merges a number attached below its
 period

---
 udapi/block/ud/de/fixgsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/de/fixgsd.py b/udapi/block/ud/de/fixgsd.py
index 65d1268..13bc684 100644
--- a/udapi/block/ud/de/fixgsd.py
+++ b/udapi/block/ud/de/fixgsd.py
@@ -22,6 +22,9 @@ class FixGSD(Block):
                 number = node.prev_node
                 period = node
                 # The period should not have any children but if it does, re-attach them to the number.
+                # If the number itself is below the period, it takes the place of the period.
+                if number.is_descendant_of(period):
+                    number.parent = period.parent
                 for c in period.children:
                     c.parent = number
                 # The period should be followed by a space but if it isn't, mark it at the number.
-- 
2.43.0


From 4bbc4bfc5d2cf5ad664126c3a46a2ab525eb4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:15 +0000
Subject: [PATCH 148/150] fix: ud.SetSpaceAfter updates the text also after
 changes made by its subclasses

---
 udapi/block/ud/setspaceafter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 820239b..b9664d0 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -24,7 +24,6 @@ class SetSpaceAfter(Block):
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-        self.changed = False
 
         # Undirected double quotes are ambiguous.
         # If there is an even number of quotes in a sentence, suppose they are not nested
@@ -60,6 +59,8 @@ class SetSpaceAfter(Block):
 
         if self.fix_text and self.changed:
             root.text = root.compute_text()
+        # Reset only now, so that changes made by subclasses before calling this method are included.
+        self.changed = False
 
     def mark_no_space(self, node):
         """Mark a node with SpaceAfter=No unless it is a goeswith exception."""
-- 
2.43.0


From e294f3a8df83bc1cab60e168311ad0285fb23907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:15 +0000
Subject: [PATCH 149/150] fix: ud.es.ElQue and ud.ca.ElQue do not attach a node
 under its own descendant

---
 udapi/block/ud/ca/elque.py | 6 ++++--
 udapi/block/ud/es/elque.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/ca/elque.py b/udapi/block/ud/ca/elque.py
index 6b3ad22..e208533 100644
--- a/udapi/block/ud/ca/elque.py
+++ b/udapi/block/ud/ca/elque.py
@@ -71,7 +71,8 @@ class ElQue(Block):
 
     def fix_pattern(self, adp, el, que, verb):
         if adp:
-            if adp.parent == que or adp.parent == verb:
+            # If 'el' is in the subtree of the preposition, attaching the preposition to 'el' would lead to a cycle.
+            if (adp.parent == que or adp.parent == verb) and adp != el and not el.is_descendant_of(adp):
                 attach(adp, el, 'case')
         if el.parent == que:
             ###!!! Just a temporary change. In the end it will be attached elsewhere.
@@ -91,7 +92,8 @@ class ElQue(Block):
                 eldeprel = 'nmod'
             elif re.match(r'^(xcomp|conj|appos|root)$', verb.udeprel):
                 eldeprel = verb.deprel
-            if eldeprel:
+            # If the verb is (indirectly) in the subtree of 'el', attaching 'el' above it would lead to a cycle.
+            if eldeprel and not verb.is_descendant_of(el):
                 attach(el, verb.parent, eldeprel)
                 attach(verb, el, 'acl:relcl')
                 # If anything before 'el' depends on the verb ('cc', 'mark', 'punct' etc.),
diff --git a/udapi/block/ud/es/elque.py b/udapi/block/ud/es/elque.py
index 4d14b98..c85e995 100644
--- a/udapi/block/ud/es/elque.py
+++ b/udapi/block/ud/es/elque.py
@@ -71,7 +71,8 @@ class ElQue(Block):
 
     def fix_pattern(self, adp, el, que, verb):
         if adp:
-            if adp.parent == que or adp.parent == verb:
+            # If 'el' is in the subtree of the preposition, attaching the preposition to 'el' would lead to a cycle.
+            if (adp.parent == que or adp.parent == verb) and adp != el and not el.is_descendant_of(adp):
                 attach(adp, el, 'case')
         if el.parent == que:
             ###!!! Just a temporary change. In the end it will be attached elsewhere.
@@ -91,7 +92,8 @@ class ElQue(Block):
                 eldeprel = 'nmod'
             elif re.match(r'^(xcomp|conj|appos|root)$', verb.udeprel):
                 eldeprel = verb.deprel
-            if eldeprel:
+            # If the verb is (indirectly) in the subtree of 'el', attaching 'el' above it would lead to a cycle.
+            if eldeprel and not verb.is_descendant_of(el):
                 attach(el, verb.parent, eldeprel)
                 attach(verb, el, 'acl:relcl')
                 # If anything before 'el' depends on the verb ('cc', 'mark', 'punct' etc.),
-- 
2.43.0


From 47f7ab5a14f5ef1ff218eb99b557aac6cdc20fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:15 +0000
Subject: [PATCH 150/150] fix: msf.CreateAbstract finds an abstract subject
 which is already in the enhanced graph

---
 udapi/block/msf/createabstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/msf/createabstract.py b/udapi/block/msf/createabstract.py
index fbdf73e..8891c13 100644
--- a/udapi/block/msf/createabstract.py
+++ b/udapi/block/msf/createabstract.py
@@ -21,7 +21,7 @@ class CreateAbstract(Block):
             # Current node is a finite predicate. Does it have a subject? If not, create an abstract one.
             if not any([x.udeprel in ['nsubj', 'csubj'] for x in node.children]):
                 # There could already be an abstract subject. We have to look for it in the enhanced graph.
-                if not any([re.match(r"^[nc]subj", edep['deprel']) for edep in node.deps]):
+                if not any([re.match(r"^[nc]subj", edep['deprel']) for x in node.root.descendants_and_empty for edep in x.deps if edep['parent'] is node]):
                     # Create an abstract subject.
                     subject = node.create_empty_child('nsubj')
                     subject.upos = 'PRON'
-- 
2.43.0

