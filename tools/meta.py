ALG = 'linear_data_structures/algorithms.py'
ARR = 'linear_data_structures/arrays.py'
LL = 'linear_data_structures/linked_lists.py'
MISC = 'miscellaneous_data_structures/'
TR = 'trees/'
GA = 'graphs/algorithms.py'

META = [
 dict(id='C01', title='Comparison sorts order the requested range and only rearrange it',
      statement='After any of the comparison sorts (bubble, selection, insertion, cocktail shaker, brick sequential and parallel, shell, quick, intro, parallel merge, heap sort) runs in the Python backend on a one-dimensional array, the positions start..end hold the same element occurrences in non-decreasing order of the given comparator (<= by default) with None entries last, and every position outside start..end is untouched. The sort terminates and raises nothing for every array (empty, single-element, duplicates, None entries), every valid range and every comparator that is a total preorder; on a dynamic array the result is the same up to its usual compaction and its bookkeeping stays exact.',
      quant='every array content and length, every valid start/end range, every total-preorder comparator, any thread count',
      why='The unit tests sort two seeded arrays of distinct values; a boundary error for some length, duplicate pattern, None position, range or comparator is invisible to them.',
      files=[ALG, ARR, 'utils/misc_util.py'],
      mech=[('the sorting loops', ALG), ('comparison helper putting None last', 'utils/misc_util.py:_comp'), ('dynamic array compaction', ARR + ':DynamicOneDimensionalArray._modify')]),
 dict(id='C02', title='Counting, bucket and radix sort return the sorted contents',
      statement='For integer arrays (None entries allowed), counting sort returns an array with exactly the non-None input elements in non-decreasing order (an array without such elements is returned as it is); bucket sort and, for non-negative values, radix sort leave the positions start..end with the same elements in non-decreasing order, None entries last, and every other position untouched. The result is a rearrangement of the input for every input, including empty arrays, duplicates and negative numbers (counting and bucket sort), and nothing is raised.',
      quant='every integer array, length and None placement, every valid range', 
      why='Tests run one seeded array of distinct positive values; index arithmetic of buckets, counts and digits depends on value ranges that no sample covers.',
      files=[ALG], mech=[('counting_sort', ALG + ':counting_sort'), ('bucket_sort', ALG + ':bucket_sort'), ('radix_sort', ALG + ':radix_sort')]),
 dict(id='C03', title='Searches and bounds return the right index, or report absence',
      statement='In the Python backend linear search returns the first index in start..end whose element equals the value, and binary and jump search return such an index on any array sorted by the comparator; all three return None exactly when no element in the range equals the value. lower_bound (upper_bound) on a sorted range returns the first index whose element is not less than (is greater than) the value, or end if there is none, and is_ordered is true exactly when no two adjacent non-None elements of the range are out of order.',
      quant='every array (sorted where required), every value present or absent, every valid range', 
      why='Index arithmetic errors at range ends, on duplicates, on short ranges or for absent values survive the few sampled arrays.',
      files=[ALG], mech=[(n, ALG + ':' + n) for n in ('linear_search', 'binary_search', 'jump_search', 'lower_bound', 'upper_bound', 'is_ordered')]),
 dict(id='C04', title='Subsequence, permutation and matrix algorithms compute their definition',
      statement='longest_common_subsequence returns a common subsequence of its inputs whose length is the maximum; next_permutation and prev_permutation return the lexicographically adjacent rearrangement of the range and True, or the wrapped-around one and False at the end of the order. longest_increasing_subsequence returns a strictly increasing subsequence of maximum length, and parallel matrix multiplication returns the matrix product for every pair of compatible matrices.',
      quant='every pair of sequences, every array and range, every pair of compatible matrices', 
      why='Optimality and adjacency are statements about all candidate subsequences and permutations; the tests compare a handful of outputs.',
      files=[ALG], mech=[('longest_common_subsequence', ALG), ('longest_increasing_subsequence', ALG), ('_permutation_util', ALG), ('matrix_multiply_parallel', ALG)]),

 dict(id='C05', title='Fixed-size and multi-dimensional arrays behave as bounded mutable tables',
      statement='A one-dimensional array has exactly the length and contents it was constructed with; reading index i in 0..n-1 returns the last value written there (converted to the dtype of the array) and never a value written elsewhere, and reading outside 0..n-1 or writing at n or beyond raises IndexError and changes nothing. A multi-dimensional array of shape (d1..dk) maps every in-range index tuple to its own cell: a write is seen by reads of the same tuple only, and out-of-range or wrongly sized index tuples raise IndexError.',
      quant='every construction form, every shape, every index (in and out of range), every history of writes',
      why='Aliasing of cells and bound errors depend on particular shapes and index tuples; tests read back a few cells.',
      over=['inputs', 'histories'],
      files=[ARR], mech=[('OneDimensionalArray', ARR), ('MultiDimensionalArray index linearisation', ARR)]),
 dict(id='C06', title='Dynamic arrays keep their elements through append, delete and resizing',
      statement='After any history of append, delete, overwriting of live entries and resizing, the non-None entries of a dynamic array are exactly the live elements in insertion order: append puts the element after the last live one, deleting an occupied index removes that element only, deleting an empty or out-of-range index changes nothing. The element count equals the number of live entries, no live entry lies beyond the last filled position, and growth or shrinkage never loses, duplicates or reorders an element for any load factor.',
      quant='every history of operations, every load factor, every initial content', over=['inputs', 'histories'],
      why='Loss on resizing needs a particular interleaving of appends and deletes around the load-factor threshold.',
      files=[ARR], mech=[('append / delete / _modify', ARR + ':DynamicOneDimensionalArray')]),
 dict(id='C07', title='Linked lists of all four kinds implement the abstract sequence',
      statement='Singly, doubly, singly circular and doubly circular linked lists behave as a mutable sequence under any history of appendleft, append, insert_at, insert_before, insert_after, popleft, popright, extract and indexing: length, forward order and results match the abstract sequence (negative positions count from the end), out-of-range positions raise IndexError and removing from an empty list raises ValueError. Forward and backward links are mutually consistent, the end nodes are the real ends (linked into a ring for circular kinds and open otherwise), and no node is lost or shared.',
      quant='every history of operations on each list kind, every position', over=['inputs', 'histories'],
      why='A stale end pointer or backward link only shows after a particular following operation; tests follow one scripted history.',
      files=[LL], mech=[('insert_at / extract / append', LL)]),
 dict(id='C08', title='A skip list is a sorted collection of its keys for every coin sequence',
      statement='After any history of insert and extract a skip list holds exactly the keys inserted and not extracted since (equal keys are kept, the newest first), search tells whether a key is present and its bottom level lists the keys in sorted order. Extracting removes one occurrence of the key, extracting an absent key raises KeyError and changes nothing, each upper level is a subsequence of the level below, and all this holds for every outcome of the random level choice.',
      quant='every history of operations, every key, every coin sequence', over=['inputs', 'histories'],
      why='Level structure depends on random coins; a faulty unlink on an upper level shows only for certain coin sequences.',
      files=[LL], mech=[('insert / extract / _search', LL + ':SkipList')]),
 dict(id='C09', title='Stacks are LIFO, queues are FIFO, deques keep both ends',
      statement='Every implementation of stack (array and linked list) returns elements in last-in-first-out order, every queue in first-in-first-out order, and double-ended queue operations (appendleft, append, popleft, pop) act on the right end of the abstract sequence, for every history of operations. Length, emptiness, front, rear and peek always agree with that sequence, and popping an empty container raises IndexError and leaves it usable.',
      quant='every history of operations on each implementation', over=['histories', 'inputs'],
      why='Array-backed implementations resize and compact underneath; wrong results need particular sequences of pushes and pops that tests do not script.',
      files=[MISC + 'stack.py', MISC + 'queue.py'], mech=[('ArrayStack, LinkedListStack', MISC + 'stack.py'), ('ArrayQueue, LinkedListQueue', MISC + 'queue.py')]),
 dict(id='C10', title='Heaps and priority queues always deliver the best remaining element',
      statement='For every history of insertions and extractions, extracting from a binary, ternary or d-ary heap (min or max) returns an element whose key is extreme among those present and removes exactly that element; extracting from an empty heap raises IndexError and leaves it usable. Every priority queue implementation (linked list, binary heap, binomial heap) pops an element of best priority and afterwards holds exactly the other elements.',
      quant='every history of operations, every multiset of keys, every d, min and max', over=['histories', 'inputs'],
      why='A sift-up or sift-down error needs particular shapes and key orders; the tests check a few scripted heaps.',
      files=[TR + 'heaps.py', MISC + 'queue.py'], mech=[('DHeap, BinaryHeap, TernaryHeap', TR + 'heaps.py'), ('PriorityQueue implementations', MISC + 'queue.py')]),
 dict(id='C11', title='Binomial heaps keep binomial shape, heap order and contents',
      statement='After any history of insert, merge, find_minimum, delete_minimum, decrease_key and delete on binomial heaps, the heap holds exactly the keys that should remain, find_minimum returns a node of minimum key and delete_minimum removes exactly that one. The heap is always a list of binomial trees of strictly increasing orders, each heap-ordered, with consistent parent links.',
      quant='every history of operations on any number of heaps', over=['histories', 'inputs'],
      why='Carry chains in the merge need particular sizes of the two heaps; tests merge a few.',
      files=[TR + 'heaps.py', MISC + 'binomial_trees.py'], mech=[('BinomialHeap', TR + 'heaps.py'), ('BinomialTree.add_sub_tree', MISC + 'binomial_trees.py')]),
 dict(id='C12', title='Disjoint sets represent exactly the equivalence generated by the unions',
      statement='After any history of make_set, union, find_root, make_root, find_size and disjoint_sets, two keys have the same root exactly when a chain of unions links them, disjoint_sets lists exactly these classes, and find_size is the number of keys in the class. make_root makes its key the representative without changing any class, re-making an existing set or repeating a union changes nothing, unknown keys raise KeyError, and every search terminates.',
      quant='every history of operations over every set of keys', over=['histories', 'inputs'],
      why='Stale sizes or parents after path compression and re-rooting appear only for certain sequences of operations.',
      files=[MISC + 'disjoint_set.py'], mech=[('DisjointSetForest', MISC + 'disjoint_set.py')]),
 dict(id='C13', title='A multiset counts its elements and answers order queries',
      statement='After any history of add and remove, count(x) is the number of additions of x minus the removals that took effect (never negative), membership is count > 0, and the length is the sum of the counts. lower_bound(x) and upper_bound(x) return the smallest present element not less than, respectively greater than, x, or None; removing an absent element changes nothing.',
      quant='every history of add and remove, every query', over=['histories', 'inputs'],
      why='The counter and the search tree must agree after every history; the tests sample a short one.',
      files=[MISC + 'multiset.py'], mech=[('Multiset', MISC + 'multiset.py')]),
 dict(id='C14', title='Range queries equal the fold over the range after any updates',
      statement='For every non-empty integer array, every associative query function f with f([x]) = x (tolerating None for sparse tables and segment trees) and every valid range, static range queries (array, sparse table) and dynamic ones (array, segment tree) return the left-to-right combination of exactly the elements in the range; for dynamic queries this holds after every history of point updates. A start above the end raises ValueError, an index outside the array raises IndexError, and empty arrays are rejected.',
      quant='every array length and content, every range, every history of updates, every associative function', over=['inputs', 'histories'],
      why='Power-of-two block decompositions and segment splits fail only at particular lengths and ranges.',
      files=[MISC + 'algorithms.py', MISC + 'sparse_table.py', MISC + 'segment_tree.py'],
      mech=[('RangeQueryStatic / RangeQueryDynamic', MISC + 'algorithms.py'), ('SparseTable', MISC + 'sparse_table.py'), ('OneDimensionalArraySegmentTree', MISC + 'segment_tree.py')]),
 dict(id='C15', title='Binary indexed tree sums equal the true range sums after any updates',
      statement='For every array of numbers and every history of point updates, the prefix sum and range sum returned by the binary indexed tree equal the sums of the current values over exactly the requested positions. An update changes one position and no other.',
      quant='every array length and content, every range, every history of updates', over=['inputs', 'histories'],
      why='Bit arithmetic on indices fails at particular positions relative to powers of two.',
      files=[TR + 'binary_trees.py'], mech=[('BinaryIndexedTree', TR + 'binary_trees.py')]),
 dict(id='C16', title='Binary search trees keep the search order and answer queries exactly',
      statement='After any history of insert and delete under any total-order comparator, the in-order traversal of a binary search tree lists exactly the present keys in strictly increasing order, search finds a key exactly when it is present, and inserting a present key replaces its data only. Parent links, subtree sizes, rank, select, lower and upper bound and lowest common ancestor (by either algorithm) agree with that set of keys and the shape of the tree, in plain and in self-balancing trees.',
      quant='every history of operations, every key set, every query', over=['histories', 'inputs'],
      why='Deletion cases and stale sizes depend on the tree shape reached by a particular history.',
      files=[TR + 'binary_trees.py'], mech=[('BinarySearchTree', TR + 'binary_trees.py'), ('BinaryTree', TR + 'binary_trees.py')]),
 dict(id='C17', title='Self-balancing trees keep their balance invariants and contents',
      statement='After every history of insert and delete, AVL trees are balanced within one level with exact stored heights, red-black trees have a black root, no red node with a red child and equal black heights, treaps are heap-ordered by priority, and cartesian trees (created empty) keep heap order on their priorities. In each of these and in splay trees the keys are exactly those inserted and not deleted, in search order with consistent parent links; inserting brings the key to the root of a splay tree, and split (at a present key) and join lose no keys.',
      quant='every history of operations, every key set, every random priority choice', over=['histories', 'inputs'],
      why='Rebalancing cases occur only for specific shapes and deletion orders; tests replay a few histories.',
      files=[TR + 'binary_trees.py'], mech=[('AVLTree, RedBlackTree, Treap, SplayTree, CartesianTree', TR + 'binary_trees.py')]),
 dict(id='C18', title='Tree traversals visit every node exactly once in the defined order',
      statement='For every non-empty binary tree, depth-first traversal in pre-order, in-order, post-order and out-order, and breadth-first traversal, returns each reachable node exactly once in the order its definition gives. A traversal terminates and leaves the tree unchanged.',
      quant='every tree shape, every traversal kind', 
      why='Iterative traversals with explicit stacks fail on particular shapes; tests traverse one or two trees.',
      files=[TR + 'binary_trees.py'], mech=[('BinaryTreeTraversal', TR + 'binary_trees.py')]),
 dict(id='C19', title='Interval segment tree stabbing queries report exactly the covering intervals',
      statement='For every non-empty collection of closed intervals, querying the segment tree at a point reports every interval containing it and no other, each once; the cache never changes the answer. Building and querying never modify the intervals.',
      quant='every list of intervals, every query point, initialised lazily or eagerly',
      why='Canonical decompositions go wrong only for particular endpoint arrangements.',
      files=[TR + 'space_partitioning_trees.py'], mech=[('OneDimensionalSegmentTree', TR + 'space_partitioning_trees.py')]),
 dict(id='C20', title='String matching reports exactly all occurrences',
      statement='For every text and pattern, each matching algorithm (Knuth-Morris-Pratt, Rabin-Karp, Boyer-Moore, z-function) returns the start positions of all occurrences of the pattern, overlapping ones included, in increasing order, and no other position. An empty pattern or text gives no positions, and patterns longer than the text and arbitrary characters are answered without error.',
      quant='every pair of strings',
      why='Failure tables, hashes and bad-character shifts go wrong on particular repetitive or colliding strings.',
      files=['strings/algorithms.py'], mech=[('find', 'strings/algorithms.py')]),
 dict(id='C21', title='Tries represent exactly the set of inserted and not deleted strings',
      statement='After any history of insert and delete, a trie contains a string exactly when it was inserted and not deleted since, reports a non-empty prefix as present exactly when some present string starts with it, and lists exactly the present strings with a given prefix, each once. Deleting a string never affects another one, deleting an absent one changes nothing, and no empty branch is left behind.',
      quant='every history of insert and delete over every set of strings', over=['histories', 'inputs'],
      why='Strings that are prefixes of each other interact on deletion; tests use a short list of words.',
      files=['strings/trie.py'], mech=[('Trie', 'strings/trie.py')]),
 dict(id='C22', title='Graph representations keep exact vertices, edges and adjacency',
      statement='After any history of adding and removing vertices and edges, adjacency-list and adjacency-matrix graphs report exactly the current vertices, edges, neighbours, adjacency and edge weights (the last given): an edge is present from its addition until it or an endpoint is removed. The vertex and edge counts equal the actual numbers, and querying never changes the graph; vertex names must not be attribute names of the graph or node objects.',
      quant='every history of operations on either representation', over=['histories', 'inputs'],
      why='Stale edges and weights appear only after removals followed by re-additions.',
      files=['graphs/adjacency_list.py', 'graphs/adjacency_matrix.py', 'graphs/graph.py'], mech=[('AdjacencyList', 'graphs/adjacency_list.py'), ('AdjacencyMatrix', 'graphs/adjacency_matrix.py')]),
 dict(id='C23', title='Breadth-first and depth-first search visit exactly the reachable vertices',
      statement='Sequential and parallel breadth-first search and depth-first search call the operation for every vertex reachable from the source and for no other, each vertex is discovered once, and breadth-first search reaches vertices in non-decreasing distance from the source; the graph is unchanged. If the operation returns False the search stops, in the sequential case without any further call and in the parallel case after the current layer.',
      quant='every graph in either representation, every source, any thread count', over=['inputs', 'schedules'],
      why='Wrong marking order repeats or misses vertices only on graphs with converging paths.',
      files=[GA], mech=[('breadth_first_search', GA), ('depth_first_search', GA), ('breadth_first_search_parallel', GA)]),
 dict(id='C24', title='Minimum spanning tree algorithms return a minimum spanning forest',
      statement="For every weighted undirected graph Kruskal's algorithm, and for every connected one Prim's algorithm (sequential and parallel), returns a graph on the same vertex names whose edges are edges of the input with their weights, acyclic and connecting every connected component, with total weight minimal among all spanning forests. The input graph is unchanged.",
      quant='every weighted undirected graph, any thread count', over=['inputs', 'schedules'],
      why='Minimality quantifies over all spanning trees and shows only with particular weight ties and cycles.',
      files=[GA], mech=[('minimum_spanning_tree', GA), ('minimum_spanning_tree_parallel', GA)]),
 dict(id='C25', title='Strongly connected components and bridges are exactly right',
      statement="For every directed graph, Kosaraju's and Tarjan's algorithms return a partition of the vertices in which two vertices share a class exactly when each is reachable from the other. For every undirected graph, find_bridges returns exactly the edges whose removal increases the number of connected components.",
      quant='every directed (undirected) graph',
      why='Low-link bookkeeping goes wrong on particular cross and back edges.',
      files=[GA], mech=[('strongly_connected_components', GA), ('find_bridges', GA)]),
 dict(id='C26', title='Shortest-path algorithms return the true distances and real paths',
      statement='On every weighted directed graph Dijkstra (non-negative weights) and queue-based Bellman-Ford return for every vertex the minimum weight of a path from the source, infinity when there is none, and predecessors that trace a path of that weight; Floyd-Warshall (no negative cycles) and Johnson give the minimum weight for every pair with a path. A negative cycle reachable from the source (anywhere, for Johnson) is reported by a ValueError and never by wrong distances, and the input graph is unchanged.',
      quant='every weighted directed graph, every source and target',
      why='Minimality quantifies over all paths; relaxation order errors show only on particular weights.',
      files=[GA], mech=[('shortest_paths', GA), ('all_pair_shortest_paths', GA)]),
 dict(id='C27', title='Topological sort orders every acyclic graph and rejects cyclic ones',
      statement='For every directed acyclic graph the sequential and the parallel topological sort return a list of all vertices, each once, in which every edge goes forward; for every graph with a cycle they raise ValueError and return no order. The input graph keeps its vertices and edges.',
      quant='every directed graph, any thread count', over=['inputs', 'schedules'],
      why='Orders are only checked on one or two fixed graphs.',
      files=[GA], mech=[('topological_sort', GA), ('topological_sort_parallel', GA)]),
 dict(id='C28', title='Maximum flow equals the minimum cut',
      statement="For every capacitated directed graph and distinct source and sink, Edmonds-Karp and Dinic's algorithm return the maximum value of a flow, equal to the capacity of a minimum cut; it is 0 when the sink is unreachable. The input graph is unchanged.",
      quant='every capacitated directed graph, every source and sink',
      why='Flows that need to be rerouted through residual edges appear only in particular graphs.',
      files=[GA], mech=[('max_flow', GA)]),
 dict(id='C29', title='The native backend agrees with the Python backend',
      statement='Every operation offered by both backends gives the same observable result in the native (C++) backend as in the Python backend for the same history of calls: same values, same absence, same kind of error. The native backend never crashes the interpreter on valid input.',
      quant='every operation with a native counterpart, every input and history', over=['inputs', 'histories'],
      na='the native backend is C++ against the CPython API; no deductive verifier for C++ is available here (cbmc has a partial C++ front end and no model of the CPython runtime; frama-c has no WP), and agreement with the Python backend is a relation between two languages that no contract of pyvc can state',
      why='Tests run one scenario per backend and do not compare them.',
      files=['linear_data_structures/_backend/cpp', 'trees/_backend/cpp', 'graphs/_backend/cpp'], mech=[('C++ extension modules', 'utils/_backend/cpp')]),
]
