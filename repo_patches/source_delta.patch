From b89805fc6ed43b4a8323990b73306296c0c2f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 01/53] fix: brick_sort and brick_sort_parallel loop forever on
 equal neighbours

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..f854969 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -191,11 +191,11 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
@@ -203,7 +203,7 @@ def brick_sort(array, **kwargs):
         array._modify(True)
 
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _comp(array[j], array[i], comp) and not _comp(array[i], array[j], comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From d23c35526f49e1e3d561d15aa1c353960a34d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 02/53] fix: quick_sort with a pivot other than the last
 element, and on an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f854969..66c00b2 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -762,6 +762,12 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        if array[high] is not x:
+            # the partition below expects the pivot at the end of the range
+            for j in range(low, high):
+                if array[j] is x:
+                    array[j], array[high] = array[high], array[j]
+                    break
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
@@ -773,8 +779,9 @@ def quick_sort(array: Array, **kwargs) -> Array:
     upper = kwargs.get('end', len(array) - 1)
     stack = Stack()
 
-    stack.push(lower)
-    stack.push(upper)
+    if lower < upper:
+        stack.push(lower)
+        stack.push(upper)
 
     while stack.is_empty is False:
         high = stack.pop()
-- 
2.43.0


From 7adca2845c98b473c503080c12dbe3d6a8e87880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 03/53] fix: sorting an empty or all-None dynamic array raises

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 pydatastructs/linear_data_structures/arrays.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 66c00b2..515bf08 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -120,7 +120,7 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
-    for size in range(floor(log(end - start + 1, 2)) + 1):
+    for size in range(floor(log(max(end - start + 1, 1), 2)) + 1):
         pow_2 = 2**size
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             i = start
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..2987af1 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -380,11 +380,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
-        if (self._num/self._size < self._load_factor):
+            self._last_pos_filled = i
+        if self._size > 0 and self._num/self._size < self._load_factor:
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
             for i in range(self._last_pos_filled + 1):
-- 
2.43.0


From 46ec58ec282d087de12bd4a201b5634dda68ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/53] fix: jump_search probes outside start..end when start >
 0, and raises on an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 515bf08..17721dc 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1740,8 +1740,11 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
+    if start > end:
+        return None
+
     step = int(sqrt(end - start + 1))
-    current_position = step
+    current_position = start + step
     prev = start
     while comp(array[min(current_position, end)], value):
         prev = current_position
-- 
2.43.0


From 04b852b63020f2a5660031147f0241e2bb8dec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/53] fix: lower_bound and upper_bound raise on an empty
 range

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 17721dc..cf31cc4 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -992,7 +992,7 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
+    if start < end and comp(value, array[start]):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
@@ -1065,7 +1065,7 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
+    if start < end and not comp(array[start], value):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
-- 
2.43.0


From 451f0c5c827f4bbe42c0a55869f1b3f5e6ace94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 06/53] fix: is_ordered reports equal neighbours as out of
 order under the default comparator

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index cf31cc4..08ea7d6 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -927,7 +927,7 @@ def is_ordered(array, **kwargs):
     for i in range(lower + 1, upper + 1):
         if array[i] is None or array[i - 1] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        if comp(array[i], array[i - 1]) and not comp(array[i - 1], array[i]):
             return False
     return True
 
-- 
2.43.0


From 441f7bed9b0438d65b10394d653876d2f788d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 07/53] fix: multi-dimensional arrays accept out-of-range
 indices and alias other cells

---
 pydatastructs/linear_data_structures/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2987af1..1d6ea15 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -263,7 +263,8 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        shape = self.shape
+        if any(indices[i] < 0 or indices[i] >= shape[i] for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From 6b83fd89033e49ecfde5334fefc035e10412a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 08/53] fix: array queues lose track of their ends when the
 underlying array resizes

---
 .../miscellaneous_data_structures/queue.py    | 57 ++++++++-----------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..72d3316 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -114,7 +114,8 @@ class ArrayQueue(Queue):
         if items is None:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
-            dtype = type(items[0])
+            if len(items) > 0:
+                dtype = type(items[0])
             items = DynamicOneDimensionalArray(dtype, items)
         obj = object.__new__(cls)
         obj.items, obj._front = items, -1
@@ -133,41 +134,39 @@ class ArrayQueue(Queue):
                 'pop', 'is_empty', '__len__', '__str__', 'front',
                 'rear']
 
+    def _update_ends(self):
+        # The underlying array may move its elements
+        # to new positions when its size changes.
+        if self.is_empty:
+            self._front = -1
+            self._rear = -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
         temp = []
-        if self.is_empty:
-            self._front = 0
-            self._rear = -1
         self.items._dtype = type(x)
         temp.append(x)
-        for i in range(self._front, self._rear + 1):
-            temp.append(self.items._data[i])
+        if not self.is_empty:
+            for i in range(self._front, self._rear + 1):
+                temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
@@ -176,17 +175,8 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
     @property
@@ -206,8 +196,9 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
-            _data.append(self.items._data[i])
+        if not self.is_empty:
+            for i in range(self._front, self._rear + 1):
+                _data.append(self.items._data[i])
         return str(_data)
 
 class LinkedListQueue(Queue):
-- 
2.43.0


From dbf9bb68286311f96be4e72e7ff81b5ffc1179dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 09/53] fix: linked lists mishandle negative positions and
 circular backward links

---
 .../linear_data_structures/linked_lists.py    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..dfa175a 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -536,6 +536,8 @@ class SinglyCircularLinkedList(SinglyLinkedList):
 
     def insert_at(self, index, key, data=None):
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
+        if index < 0:
+            index = max(self.size - 1 + index, 0)
         if self.size == 1:
             self.head.next = self.head
         new_node = self.__getitem__(index)
@@ -548,7 +550,7 @@ class SinglyCircularLinkedList(SinglyLinkedList):
         node = super(SinglyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
         return node
 
@@ -611,6 +613,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
     def insert_at(self, index, key, data=None):
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
+        if index < 0:
+            index = max(self.size - 1 + index, 0)
         if self.size == 1:
             self.head.next = self.head
             self.head.prev = self.head
@@ -627,8 +631,9 @@ class DoublyCircularLinkedList(DoublyLinkedList):
         node = super(DoublyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From 0dc522368378eb9e14b5d9ed86242eee2a27f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 10/53] fix: removing an absent element from a multiset raises
 KeyError

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..802c291 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -20,7 +20,7 @@ class Multiset:
             self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
+        if self.counter.get(element, 0) == 1:
             self.tree.delete(element)
         if self.counter.get(element, 0) > 0:
             self._n -= 1
-- 
2.43.0


From ef65e467bf90b28dc81b061492d95a99d0c614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 11/53] fix: deleting an absent string that is a prefix from a
 trie reports success

---
 pydatastructs/strings/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..b09b75b 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -151,6 +151,8 @@ class Trie(object):
                 return None
             walk = walk.get_child(char)
         path.append(walk)
+        if not walk.is_terminal:
+            return None
         i = len(path) - 1
         path[i].is_terminal = False
         while not path[i]._children and i >= 1:
-- 
2.43.0


From 4a2bb8e1c1c3e6b6d720cbb7a6a73c524176e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 12/53] fix: strings_with_prefix lists only the last character
 of the prefix itself

---
 pydatastructs/strings/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index b09b75b..ec88ee3 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -197,7 +197,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From 198960b1df1ccc5c3eb5c76ced380bb525f724e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 13/53] fix: rabin_karp reports hash collisions as occurrences

---
 pydatastructs/strings/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..ded65a2 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,8 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if (curr_hash == (query_hash * p_pow[i]) % MOD and
+            text[i:i + q] == query):
             positions.append(i)
 
     return positions
-- 
2.43.0


From 9ea445c508872a5e13d0de40327ea9127170ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 14/53] fix: z_function misses occurrences followed by its
 separator character

---
 pydatastructs/strings/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index ded65a2..eb48f25 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -241,8 +241,8 @@ def _z_function(text, query):
         return positions
 
     fct = _z_vector(text, query)
-    for pos in range(len(fct)):
-        if fct[pos] == len(query):
+    for pos in range(fct._last_pos_filled + 1):
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From dabf89da2804add558c9901744ce6a7e8234680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 15/53] fix: matrix_multiply_parallel only handles square
 matrices

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 08ea7d6..08455f8 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -425,7 +425,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -480,7 +480,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From 616b9b81ab64648ad0991363be65fcf7bce707fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 16/53] fix: prev_permutation is wrong for arrays with equal
 elements

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 08455f8..2451048 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1311,10 +1311,10 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
-            return True
-        else:
+        if _comp(y, x):
             return False
+        else:
+            return True
 
     return _permutation_util(array, start, end, comp,
                              _prev_permutation_comp)
-- 
2.43.0


From 3cb0a82b9871923b8b477bd0586259f95fcfde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 17/53] fix: permutations of non-integer arrays are converted
 to int

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 2451048..b97910c 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1149,7 +1149,7 @@ def longest_increasing_subsequence(array, **kwargs):
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(array._dtype, size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
-- 
2.43.0


From 5af79006605986f8d46cf702ca9e172693294735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 18/53] fix: longest_increasing_subsequence raises on an empty
 array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index b97910c..eb794e0 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1119,6 +1119,8 @@ def longest_increasing_subsequence(array, **kwargs):
         longest_increasing_subsequence,
         kwargs.get('backend', Backend.PYTHON))
     n = len(array)
+    if n == 0:
+        return OneDimensionalArray(array._dtype, 0)
     dp = OneDimensionalArray(int, n)
     dp.fill(0)
     parent = OneDimensionalArray(int, n)
-- 
2.43.0


From 6861ec235963f3ba6338080418cf5aa735550c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 19/53] fix: longest_increasing_subsequence converts
 non-integer elements to int

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eb794e0..420a714 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1138,13 +1138,13 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
+    ans = DynamicOneDimensionalArray(array._dtype, 0)
     last_index = dp[length]
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(array._dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
-- 
2.43.0


From 3f4444754da8735b549924013b6b383786a57b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 20/53] fix: counting_sort raises on an empty array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 420a714..f473f1a 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -387,7 +387,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
     """
     raise_if_backend_is_not_python(
         counting_sort, kwargs.get('backend', Backend.PYTHON))
-    max_val, min_val = array[0], array[0]
+    max_val, min_val = None, None
     none_count = 0
     for i in range(len(array)):
         if array[i] is not None:
-- 
2.43.0


From 6035735a37eb653709bc3e68fdb2b86955aeb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 21/53] fix: bucket_sort fails on small, negative, empty or
 many elements

---
 pydatastructs/linear_data_structures/algorithms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f473f1a..0c59b2d 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -561,10 +561,11 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     end = kwargs.get('end', len(array) - 1)
 
     #Find maximum value in the list and use length of the list to determine which value in the list goes into which bucket
-    max_value = None
+    max_value, min_value = None, None
     for i in range(start, end+1):
         if array[i] is not None:
             max_value = array[i]
+            min_value = array[i]
 
     count = 0
     for i in range(start, end+1):
@@ -572,9 +573,11 @@ def bucket_sort(array: Array, **kwargs) -> Array:
             count += 1
             if array[i] > max_value:
                 max_value = array[i]
+            if array[i] < min_value:
+                min_value = array[i]
 
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    size = (max_value - min_value) // count + 1 if count > 0 else 1
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -582,11 +585,8 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     # Put list elements into different buckets based on the size
     for i in range(start, end + 1):
         if array[i] is not None:
-            j = array[i] // size
-            if j is not count:
-                buckets_list[j].append(array[i])
-            else:
-                buckets_list[count-1].append(array[i])
+            j = (array[i] - min_value) // size
+            buckets_list[j].append(array[i])
 
     # Sort elements within the buckets using Insertion Sort
     for z in range(count):
-- 
2.43.0


From 33469832fb591d666524d4b31cb6debb6942f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 22/53] fix: radix_sort raises on empty ranges or a leading
 None, and leaves None before zeros

---
 pydatastructs/linear_data_structures/algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 0c59b2d..e49b50a 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1990,12 +1990,12 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
-        if array[i] is not None and array[i] > max_val:
+    max_val = None
+    for i in range(start, end + 1):
+        if array[i] is not None and (max_val is None or array[i] > max_val):
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    while max_val is not None and (exp == 1 or max_val // exp > 0):
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From ab4a243735ef596441baa03dcf47137b0444b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 23/53] fix: removing a vertex leaves the weights of its edges
 and its own adjacency behind

---
 pydatastructs/graphs/adjacency_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..87bd91b 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -59,6 +59,10 @@ class AdjacencyList(Graph):
             self.__setattr__(node.name, node)
 
     def remove_vertex(self, name):
+        vertex = self.__getattribute__(name)
+        for adjacent in list(vertex.adjacent):
+            vertex.remove_adjacent_node(adjacent)
+            self.edge_weights.pop(name + '_' + adjacent, None)
         delattr(self, name)
         self.vertices.remove(name)
         for node in self.vertices:
@@ -66,6 +70,7 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+                self.edge_weights.pop(node + '_' + name, None)
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
-- 
2.43.0


From 7c8f8a071622763a1de3b3f9e6983a5408fa78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 24/53] fix: AdjacencyMatrix.num_edges counts removed edges

---
 pydatastructs/graphs/adjacency_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..1ea182d 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -48,7 +48,7 @@ class AdjacencyMatrix(Graph):
         return len(self.vertices)
 
     def num_edges(self):
-        return sum(len(v) for v in self.matrix.values())
+        return sum(len(self.neighbors(v)) for v in self.vertices)
 
     def neighbors(self, node):
         node = str(node)
-- 
2.43.0


From 0b9d2446a8b426fe36e837364534cb0f59410e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 25/53] fix: a graph node given its adjacent nodes on
 construction stores nodes instead of names

---
 pydatastructs/utils/misc_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..1162013 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -408,8 +408,7 @@ class AdjacencyListGraphNode(GraphNode):
             if len(adjacency_list) > 0:
                 for node in adjacency_list:
                     obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            obj.adjacent = [node.name for node in adjacency_list]
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From a98447d2bf72be795063a33b527ed5a0e80113af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 26/53] fix: breadth_first_search_parallel revisits vertices
 and never ends on cycles

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..fb9d3f6 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
-- 
2.43.0


From f6f982f78d9a4972c52805bd2bc710e894389125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 27/53] fix: breadth_first_search_parallel ignores a failed
 operation except in the last vertex of a layer

---
 pydatastructs/graphs/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index fb9d3f6..161b4d4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -213,12 +213,13 @@ def _breadth_first_search_parallel_adjacency_list(
     layer = 0
     while len(layers[layer]) != 0:
         layers[layer+1] = set()
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
                 status = Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
-                          operation, *args), kwargs=kwargs).result()
+                          operation, *args), kwargs=kwargs).result() and status
         layer += 1
         if not status:
             return None
-- 
2.43.0


From dce02f8f5390db600b626ba2dce9a2225a4a6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 28/53] fix: minimum spanning trees share their vertices, and
 so all edges, with the input graph

---
 pydatastructs/graphs/algorithms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 161b4d4..f1006d6 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -226,8 +226,13 @@ def _breadth_first_search_parallel_adjacency_list(
 
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
+def _copy_vertex(graph, v):
+    vertex = getattr(graph, str(v))
+    return type(vertex)(vertex.name, vertex.data)
+
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    mst = Graph(*[_copy_vertex(graph, v) for v in graph.vertices],
+                implementation=graph._impl)
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -264,10 +269,9 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -406,10 +410,9 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From 686ce7f8ddc0d0bd20b88f39499eac4a800d71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 29/53] fix: kosaraju merges different strongly connected
 components

---
 pydatastructs/graphs/algorithms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index f1006d6..db75b52 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -501,6 +501,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
 
 def _visit(graph, vertex, visited, incoming, L):
     stack = [vertex]
+    finished = set()
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -512,7 +513,10 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            if top not in finished:
+                finished.add(top)
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
-- 
2.43.0


From 0e3aa0ef7a31ba4276961c721766e84315f46fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 30/53] fix: kosaraju raises KeyError for vertices without
 incoming edges

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index db75b52..f073f34 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -525,7 +525,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 52e4490833897060a733fba40eab4e556c45d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 31/53] fix: dijkstra stops before all vertices are processed

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index f073f34..ad87315 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -863,7 +863,6 @@ def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tupl
 _bellman_ford_adjacency_matrix = _bellman_ford_adjacency_list
 
 def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
-    V = len(graph.vertices)
     visited, dist, pred = {}, {}, {}
     for v in graph.vertices:
         visited[v] = False
@@ -874,8 +873,10 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
     pq = PriorityQueue(implementation='binomial_heap')
     for vertex in dist:
         pq.push(vertex, dist[vertex])
-    for _ in range(V):
+    while not pq.is_empty:
         u = pq.pop()
+        if visited[u]:
+            continue
         visited[u] = True
         for v in graph.vertices:
             edge_str = u + '_' + v
-- 
2.43.0


From b68ce2a661e504506251f63b540955aad6487cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 32/53] fix: johnson leaves the input graph reweighted, or with
 an extra vertex

---
 pydatastructs/graphs/algorithms.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index ad87315..d860955 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -991,18 +991,21 @@ def _johnson_adjacency_list(graph: Graph):
         if vertex != '__q__':
             graph.add_edge('__q__', vertex, 0)
 
-    distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
-
-    edges_to_remove = []
-    for edge in graph.edge_weights:
-        edge_node = graph.edge_weights[edge]
-        if edge_node.source.name == '__q__':
-            edges_to_remove.append((edge_node.source.name, edge_node.target.name))
-
-    for u, v in edges_to_remove:
-        graph.remove_edge(u, v)
-    graph.remove_vertex('__q__')
-
+    try:
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+    finally:
+        edges_to_remove = []
+        for edge in graph.edge_weights:
+            edge_node = graph.edge_weights[edge]
+            if edge_node.source.name == '__q__':
+                edges_to_remove.append((edge_node.source.name, edge_node.target.name))
+
+        for u, v in edges_to_remove:
+            graph.remove_edge(u, v)
+        graph.remove_vertex('__q__')
+
+    original_weights = {edge: edge_node.value
+                        for edge, edge_node in graph.edge_weights.items()}
     for edge in graph.edge_weights:
         edge_node = graph.edge_weights[edge]
         u, v = edge_node.source.name, edge_node.target.name
@@ -1026,6 +1029,9 @@ def _johnson_adjacency_list(graph: Graph):
             else:
                 all_distances[u][v] = float('inf')
 
+    for edge in graph.edge_weights:
+        graph.edge_weights[edge].value = original_weights[edge]
+
     return (all_distances, all_next_vertex)
 
 def topological_sort(graph: Graph, algorithm: str,
-- 
2.43.0


From 23c0c35ad499d5fe9d08b5188cfa5b5ce5835f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 33/53] fix: topological_sort removes all edges of the input
 graph

---
 pydatastructs/graphs/algorithms.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index d860955..d89f1e2 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1102,7 +1102,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
-- 
2.43.0


From bf5f6c1c0877e4b5a3a16e3f4970528a78bbfdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 34/53] fix: topological_sort_parallel removes all vertices of
 the input graph

---
 pydatastructs/graphs/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index d89f1e2..d2697a0 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1168,6 +1168,10 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
+    original_graph, graph = graph, _generate_mst_object(graph)
+    for u in original_graph.vertices:
+        for v in original_graph.neighbors(u):
+            graph.add_edge(u, v.name)
 
     def _collect_source_nodes(graph: Graph) -> list:
         S = []
-- 
2.43.0


From 80d5d0212e1d4d8f733ad324b41551795217e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 35/53] fix: maximum flow never reroutes flow over edges
 without an antiparallel one

---
 pydatastructs/graphs/algorithms.py | 62 ++++++++++++++++--------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index d2697a0..13a4017 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1204,6 +1204,17 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_edges(graph: Graph, u, flow_passed):
+    names = [node.name for node in graph.neighbors(u)]
+    adjacent = set(names)
+    names.extend(v for (v, w), fp in flow_passed.items()
+                 if w == u and fp > 0 and v not in adjacent)
+    for v in names:
+        edge = graph.get_edge(u, v) if v in adjacent else None
+        capacity = edge.value if edge is not None else 0
+        yield v, capacity - flow_passed.get((u, v), 0)
+
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
     parent, currentPathC = {}, {}
@@ -1211,18 +1222,15 @@ def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_pa
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
-        if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
-                    next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
-                        return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+        for next_node, residual in _residual_edges(graph, curr_node, flow_passed):
+            if (next_node != source_node and residual > 0 and
+                parent.get(next_node, False) is False):
+                parent[next_node] = curr_node
+                next_flow = min(currentPathC[curr_node], residual)
+                currentPathC[next_node] = next_flow
+                if next_node == sink_node and not for_dinic:
+                    return (next_flow, parent)
+                bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1248,23 +1256,19 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
-    if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
-                path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
-                                                               parent, sink_node,
-                                min(flow, capacity - fp), flow_passed)
-                if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
-                    return path_flow
+    for next_node, residual in _residual_edges(graph, u, flow_passed):
+        parent_cond = parent.get(next_node, None)
+        if parent_cond and parent_cond == u and residual > 0:
+            path_flow = _depth_first_search_max_flow_dinic(graph,
+                                                           next_node,
+                                                           parent, sink_node,
+                                min(flow, residual), flow_passed)
+            if path_flow > 0:
+                fp = flow_passed.get((u, next_node), 0)
+                flow_passed[(u, next_node)] = fp + path_flow
+                fp = flow_passed.get((next_node, u), 0)
+                flow_passed[(next_node, u)] = fp - path_flow
+                return path_flow
     return 0
 
 
-- 
2.43.0


From 710e16b2ba27057916a8ab91968cbed0797402a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 36/53] fix: OneDimensionalSegmentTree modifies the given list
 of intervals

---
 pydatastructs/trees/space_partitioning_trees.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..382775b 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
-- 
2.43.0


From 0bd34dab9093dc273edac58767bf49e5a1e70e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 37/53] fix: nodes inserted into a search tree after a deletion
 are linked to a wrong position

---
 .../linear_data_structures/arrays.py          |  2 +-
 pydatastructs/trees/binary_trees.py           | 24 ++++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 1d6ea15..0ae069f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -408,7 +408,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self[self._last_pos_filled + 1] = el
         self._last_pos_filled += 1
         self._num += 1
-        self._modify()
+        return self._modify()
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..d5dc9f6 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -239,6 +239,12 @@ class BinarySearchTree(BinaryTree):
                     self.right_size(self.tree[walk]) + 1)
                 walk = self.tree[walk].parent
 
+    def _reindex(self, new_indices, root_key):
+        # the nodes get new positions when the array of nodes is compacted
+        if new_indices is not None:
+            self.root_idx = new_indices[root_key]
+        self.size = self.tree._last_pos_filled + 1
+
     def insert(self, key, data=None):
         res = self.search(key)
         if res is not None:
@@ -249,25 +255,25 @@ class BinarySearchTree(BinaryTree):
             self.tree[walk].key = key
             self.tree[walk].data = data
             return None
+        root_key = self.tree[walk].key
         new_node, prev_node, flag = TreeNode(key, data), self.root_idx, True
         while flag:
             if not self.comparator(key, self.tree[walk].key):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].right = self.size
-                    self.size += 1
+                    self.tree[walk].right = self.tree._last_pos_filled + 1
                     flag = False
-                prev_node = walk = self.tree[walk].right
+                else:
+                    prev_node = walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].left = self.size
-                    self.size += 1
+                    self.tree[walk].left = self.tree._last_pos_filled + 1
                     flag = False
-                prev_node = walk = self.tree[walk].left
-        self._update_size(walk)
+                else:
+                    prev_node = walk = self.tree[walk].left
+        self._reindex(self.tree.append(new_node), root_key)
+        self._update_size(self.search(key))
 
     def search(self, key, **kwargs):
         ret_parent = kwargs.get('parent', False)
-- 
2.43.0


From acde5893c53c9305a8ea039314922da9d61a80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 38/53] fix: binary trees ignore the given comparator

---
 pydatastructs/trees/binary_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index d5dc9f6..50467a1 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,8 +70,8 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
-                        if comp is None else comp
+        obj.comparator = (lambda key1, key2: key1 < key2) \
+                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
 
-- 
2.43.0


From a76ce44f7577c83a7b3f953d468f727e7a5dac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 39/53] fix: deleting from an empty search tree raises
 TypeError

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 50467a1..da7c289 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -280,7 +280,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
-- 
2.43.0


From 159e4988ca2125162daf24c04c752fcdcc4d9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 40/53] fix: deleting a node with one child leaves wrong parent
 links in a search tree

---
 pydatastructs/trees/binary_trees.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index da7c289..0bdedcf 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -404,7 +404,7 @@ class BinarySearchTree(BinaryTree):
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
                     a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                self._reindex(new_indices, root_key)
             self._update_size(a)
 
         elif self.tree[walk].left is not None and \
@@ -431,7 +431,7 @@ class BinarySearchTree(BinaryTree):
                 new_indices = self.tree.delete(twalk)
                 if new_indices is not None:
                     a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                self._reindex(new_indices, root_key)
             self._update_size(a)
 
         else:
@@ -445,10 +445,14 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for grandchild in (self.tree[child].left,
+                                   self.tree[child].right):
+                    if grandchild is not None:
+                        self.tree[grandchild].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
-                new_indices = self.tree.delete(child)
-                if new_indices is not None:
-                    self.root_idx = new_indices[root_key]
+                self._reindex(self.tree.delete(child), root_key)
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
@@ -460,10 +464,8 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                self._reindex(new_indices, root_key)
                 self._update_size(a)
 
         if kwargs.get("balancing_info", False) is not False:
-- 
2.43.0


From 39998ab053a00bff21f8ba3de71a3bdc38f8932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 41/53] fix: select on an empty search tree returns the
 placeholder root

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 0bdedcf..ac5e409 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -496,7 +496,7 @@ class BinarySearchTree(BinaryTree):
         i -= 1 # The algorithm is based on zero indexing
         if i < 0:
             raise ValueError("Expected a positive integer, got %d"%(i + 1))
-        if i >= self.tree._num:
+        if i >= self.tree._num or self.tree[self.root_idx].key is None:
             raise ValueError("%d is greater than the size of the "
                 "tree which is, %d"%(i + 1, self.tree._num))
         walk = self.root_idx
-- 
2.43.0


From 2ef2ef59b4b0e7ba2e3fd89ba7d4e95c02fce112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 42/53] fix: lowest_common_ancestor fails for the root and for
 roots at other positions

---
 pydatastructs/trees/binary_trees.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index ac5e409..2387a61 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -574,18 +574,18 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx != root:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
+        path.append(root)
         path.reverse()
 
         return path
@@ -615,6 +615,8 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root == u or curr_root == v:
+            return self.tree[curr_root].key
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From 4b8f9659f51018ac6e504cc396fb89bd695e231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 43/53] fix: inserting an existing key into an AVL tree can
 raise, deleting an absent one returns True

---
 pydatastructs/trees/binary_trees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 2387a61..6aebb5c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1040,7 +1040,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        node_idx = self.search(key)
+        self._balance_insertion(node_idx, self.tree[node_idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1067,6 +1068,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From a2657bff2aa8e68f909681856458c482473d13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 44/53] fix: inserting an existing key into a splay tree
 corrupts a parent link

---
 pydatastructs/trees/binary_trees.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 6aebb5c..38b595b 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1138,7 +1138,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
-- 
2.43.0


From 1109025d231ef53c7f8611f946c6278d6ab16ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 45/53] fix: joining splay trees leaves wrong links and counts,
 or fails

---
 pydatastructs/trees/binary_trees.py | 37 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 38b595b..585bc99 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1160,6 +1160,13 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
+        if other.tree[other.root_idx].key is None:
+            return
+        if self.tree[self.root_idx].key is None:
+            traverse = BinaryTreeTraversal(other)
+            for node in traverse.depth_first_search(order='pre_order'):
+                super(SelfBalancingBinaryTree, self).insert(node.key, node.data)
+            return
         maxm = self.root_idx
         while self.tree[maxm].right is not None:
             maxm = self.tree[maxm].right
@@ -1171,19 +1178,31 @@ class SplayTree(SelfBalancingBinaryTree):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        root_key = self.tree[self.root_idx].key
         for node in other.tree:
             if node is not None:
                 node_copy = TreeNode(node.key, node.data)
-                if node.left is not None:
-                    node_copy.left = node.left + idx_update
-                if node.right is not None:
-                    node_copy.right = node.right + idx_update
-                self.tree.append(node_copy)
+                self._reindex(self.tree.append(node_copy), root_key)
             else:
-                self.tree.append(node)
-        self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+                self._reindex(self.tree.append(node), root_key)
+                self.tree._num -= 1
+        position = {}
+        for i in range(self.tree._last_pos_filled + 1):
+            if self.tree[i] is not None:
+                position[self.tree[i].key] = i
+        for node in other.tree:
+            if node is not None:
+                node_copy = self.tree[position[node.key]]
+                node_copy.left, node_copy.right, node_copy.parent = [
+                    None if idx is None else position[other.tree[idx].key]
+                    for idx in (node.left, node.right, node.parent)]
+        minm = position[other.tree[other.root_idx].key]
+        self.tree[self.root_idx].right = minm
+        self.tree[minm].parent = self.root_idx
+        if self.is_order_statistic:
+            traverse = BinaryTreeTraversal(self)
+            for node in reversed(traverse.breadth_first_search()):
+                node.size = self.left_size(node) + self.right_size(node) + 1
 
     def split(self, x):
         """
-- 
2.43.0


From ecb5a7984cd8ea6715564b48d86c92b3851e6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 46/53] fix: splitting a splay tree leaves stale counts and
 drops the comparator

---
 pydatastructs/trees/binary_trees.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 585bc99..76e32c8 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1196,9 +1196,9 @@ class SplayTree(SelfBalancingBinaryTree):
                 node_copy.left, node_copy.right, node_copy.parent = [
                     None if idx is None else position[other.tree[idx].key]
                     for idx in (node.left, node.right, node.parent)]
-        minm = position[other.tree[other.root_idx].key]
-        self.tree[self.root_idx].right = minm
-        self.tree[minm].parent = self.root_idx
+        right = position[other.tree[other.root_idx].key]
+        self.tree[self.root_idx].right = right
+        self.tree[right].parent = self.root_idx
         if self.is_order_statistic:
             traverse = BinaryTreeTraversal(self)
             for node in reversed(traverse.breadth_first_search()):
@@ -1227,16 +1227,14 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator, self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
             for i in range(len(elements)):
                 super(SelfBalancingBinaryTree, other).insert(elements[i].key, elements[i].data)
             for j in range(len(elements) - 1, -1, -1):
-                e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
-                self.tree[e] = None
-            self.tree[self.root_idx].right = None
+                super(SelfBalancingBinaryTree, self).delete(elements[j].key)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
-- 
2.43.0


From 9a10e20fa60f3bc72825951c139da88b7a2597a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 47/53] fix: inserting an existing key into a cartesian tree or
 treap breaks the heap order

---
 pydatastructs/trees/binary_trees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 76e32c8..7d8f3a2 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -855,6 +855,9 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        node_idx = super(CartesianTree, self).search(key)
+        if node_idx is not None:
+            self._trickle_down(node_idx)
         super(CartesianTree, self).insert(key, data)
         node_idx = super(CartesianTree, self).search(key)
         node = self.tree[node_idx]
@@ -863,7 +866,7 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.left = node.left
         new_node.right = node.right
         self.tree[node_idx] = new_node
-        if node.is_root:
+        if node.parent is None:
             self.tree[node_idx].is_root = True
         else:
             self._bubble_up(node_idx)
-- 
2.43.0


From 37cc37fc418a2339181c80043987c488c95cc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 48/53] fix: rotations leave stale subtree sizes and root marks

---
 pydatastructs/trees/binary_trees.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 7d8f3a2..a8318e2 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -701,6 +701,14 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             return _trees.SelfBalancingBinaryTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
 
+    def _update_rotated(self, *nodes):
+        for i in nodes:
+            self.tree[i].is_root = i == self.root_idx
+            if self.is_order_statistic:
+                self.tree[i].size = (
+                    self.left_size(self.tree[i]) +
+                    self.right_size(self.tree[i]) + 1)
+
     def _right_rotate(self, j, k):
         y = self.tree[k].right
         if y is not None:
@@ -717,6 +725,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated(j, k)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -737,6 +746,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -757,6 +767,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -774,6 +785,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
-- 
2.43.0


From 16a4f4e71f932a6f3366ec46eafda383a3733f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 49/53] fix: inserting an existing key into a red-black tree
 recolors its node

---
 pydatastructs/trees/binary_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index a8318e2..a2e22a6 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1364,7 +1364,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        node_idx = super(RedBlackTree, self).search(key)
         super(RedBlackTree, self).insert(key, data)
+        if node_idx is not None:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
-- 
2.43.0


From 93132308ab00a86675e90a2be0053465cee5176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 50/53] fix: deleting from a red-black tree ignores the
 compaction of its nodes

---
 pydatastructs/trees/binary_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index a2e22a6..393af61 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1527,12 +1527,15 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx)
             if new_indices is not None:
                 a = new_indices[par_key]
-                self.root_idx = new_indices[root_key]
+            self._reindex(new_indices, root_key)
         elif self._has_one_child(node_idx):
             child = self._replace_node(node_idx)
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+            self._reindex(new_indices, root_key)
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1542,8 +1545,8 @@ class RedBlackTree(SelfBalancingBinaryTree):
         elif self._has_one_child(node_idx):
             root_key = self._transplant_values(node_idx, node_idx1)
             new_indices = self.tree.delete(node_idx1)
-            if new_indices is not None:
-                self.root_idx = new_indices[root_key]
+            self._reindex(new_indices, root_key)
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
@@ -1578,11 +1581,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
-- 
2.43.0


From c8dc5fc032ec548597bd60ffa2baca4660426e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 51/53] fix: out_order traversal returns an iterator instead of
 the list of nodes

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 393af61..c9a7854 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1738,7 +1738,7 @@ class BinaryTreeTraversal(object):
         Utility method for computing out-order
         of a binary tree using iterative algorithm.
         """
-        return reversed(self._in_order(node))
+        return list(reversed(self._in_order(node)))
 
     def depth_first_search(self, order='in_order', node=None):
         """
-- 
2.43.0


From 50d9f7d06fe8bef98581e3e52c7d1dbbbfacf7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 52/53] fix: red-black trees and treaps constructed with a root
 fail on insertion

---
 pydatastructs/trees/binary_trees.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c9a7854..71808b9 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -935,7 +935,11 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = CartesianTreeNode(obj.tree[0].key, random.random(), obj.tree[0].data)
+        root.is_root = True
+        obj.tree[0] = root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1287,7 +1291,12 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = RedBlackTreeNode(obj.tree[0].key, obj.tree[0].data)
+        root.is_root = True
+        root.color = 0
+        obj.tree[0] = root
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From cfa77042c7ee0803c161ebdc5329515a48eb6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:41 +0000
Subject: [PATCH 53/53] fix: Dinic's algorithm never ends on a graph with a
 vertex of empty name

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 13a4017..b406411 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1258,7 +1258,7 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
 
     for next_node, residual in _residual_edges(graph, u, flow_passed):
         parent_cond = parent.get(next_node, None)
-        if parent_cond and parent_cond == u and residual > 0:
+        if parent_cond == u and residual > 0:
             path_flow = _depth_first_search_max_flow_dinic(graph,
                                                            next_node,
                                                            parent, sink_node,
-- 
2.43.0

