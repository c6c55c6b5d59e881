from . import prop
from .linked import LIST_KEYS
from .linkedsq import SQ_KEYS

prop('C01', ['InsertionSort', 'BubbleSort', 'SelectionSort', 'CocktailSort', 'BrickSort', 'BrickSortParallel', 'ShellSort'], budget=4, level='other',
     note='Proved for all inputs: insertion, bubble, selection, cocktail shaker, brick (sequential and parallel) and shell sort on one-dimensional arrays '
          '(sorted, rearrangement, frame, termination of every loop). Bounded stand-in: quick, intro, parallel merge and heap sort, and all sorts on dynamic arrays.',
     explanation='Every obligation of the seven sorting functions under contract is discharged from their current source; the remaining sorts and the dynamic-array case '
                 'run on concrete inputs against a sorting oracle (exhaustive small arrays, then random ones).')
prop('C03', ['LinearSearch', 'BinarySearch', 'JumpSearch', 'LowerBound', 'UpperBound', 'IsOrdered'], budget=3, level='proof',
     note='All six functions proved for all arrays, values, ranges and comparators (None-free and sorted where the statement requires it). Equality is assumed to agree with the comparator where both are used.',
     explanation='All obligations of the six functions are generated from the current source and discharged; concrete runs cross-check the contracts on the real code.')
prop('C12', ['DSU_find_root', 'DSU_union', 'DSU_find_size', 'DSU_make_set', 'DSU_make_root'], budget=6, level='proof',
     note='make_set, union, find_root, find_size, make_root proved over a ghost representative map (every history, by induction over the class invariant); termination by a ghost depth. '
          'Only disjoint_sets (a listing through a dictionary of lists) is covered by bounded runs. Trusted: two facts about cardinality of finite sets.',
     explanation='The class invariant (consistent parents, representatives, acyclicity, sizes) is preserved by every operation, with the new equivalence given explicitly; '
                 'disjoint_sets() is compared with a partition oracle on concrete histories.')
prop('C05', ['ODA_getitem', 'ODA_setitem_x', 'ODA_setitem', 'ODA_len', 'ODA_fill', 'ODA_new'], budget=8, level='other',
     note='Proved for all inputs: construction from a size or a list, reading, writing, len and fill of one-dimensional arrays (bounds, conversion to the dtype, no other cell changes). '
          'Bounded stand-in: the multi-dimensional array.',
     explanation='The obligations of the one-dimensional array are discharged from their current source; multi-dimensional arrays run on concrete shapes and index tuples against a dictionary oracle.')
prop('C06', ['DODA_modify', 'DODA_append', 'DODA_delete', 'DODA_new', 'DODA_modify_c', 'DODA_append_c', 'DODA_delete_c', 'ODA_new', 'ODA_getitem', 'ODA_setitem'], budget=4, level='proof',
     note='append, delete, the resizing helper and the constructors proved over the ghost sequence of live elements for every load factor (a history is an induction over the representation invariant).',
     explanation='Each operation changes the ghost sequence of live elements exactly as stated and keeps the representation invariant; the constructors establish it.')
prop('C07', [k for kk in LIST_KEYS.values() for k in kk], budget=6, level='proof',
     note='Every sequence operation of the four list classes (constructors, appendleft, append, insert_at, insert_after, insert_before, popleft, popright, extract, indexing, search) proved for every list, '
          'position and node of the list; the abstract sequence is a ghost field (node at each position), so a history is an induction over the class invariant. String conversion is covered by concrete runs only.',
     explanation='Each operation maps the ghost node sequence exactly as the abstract one, keeps links, back links and ends consistent, keys and data of all nodes and the links of all nodes outside the list.')
prop('C09', ['AStack_push', 'AStack_pop', 'AStack_peek', 'AStack_len', 'AStack_empty', 'AQueue_append', 'AQueue_popleft', 'AQueue_pop', 'AQueue_appendleft', 'AQueue_len', 'AQueue_empty',
             'DODA_modify_c', 'DODA_append_c', 'DODA_delete_c', 'DODA_new', 'ODA_getitem', 'ODA_setitem'] + SQ_KEYS, budget=6, level='proof',
     note='Array-backed and linked-list stack and queue (double-ended included) proved over the contracts of the dynamic array and the singly linked list for every history. '
          'Constructors from a list of items and string conversion are covered by concrete runs.',
     explanation='Each operation of every implementation changes the abstract sequence exactly as stated and keeps the class invariant.')
prop('C20', ['KMP', 'KMP_table', 'KMP_match', 'BoyerMoore', 'ZVector', 'ZFunction', 'RK_pow', 'RK_hash', 'RabinKarp', 'DODA_append_c', 'DODA_new', 'ODA_new', 'ODA_fill_t'], budget=4, level='proof',
     note='All four algorithms proved for every text and pattern over any alphabet (exactly the occurrences, overlapping ones included, in increasing order; termination). '
          'The dispatcher find() is exercised by the concrete runs only.',
     explanation='Each algorithm is proved to return the k-th occurrence as its k-th entry: failure table by a theory of borders, bad-character shifts, z-boxes, and the rolling hash by modular induction lemmas.')
prop('C15', ['BIT_update', 'BIT_prefix', 'BIT_sum', 'BIT_new', 'ODA_new', 'ODA_getitem', 'ODA_setitem'], budget=4, level='proof',
     note='Constructor, update, get_prefix_sum and get_sum proved for every array of ints, every history of updates (class invariant: every node holds the sum of the positions it covers) and every range.',
     explanation='Node j holds the sum over [j - lowbit(j), j) after the constructor and every update; lemmas about lowest set bits and prefix sums are proved by induction.')
prop('C10', ['DHeap_swap', 'DHeap_heapify', 'DHeap_build', 'DHeap_insert', 'DHeap_extract', 'DHeap_empty', 'DHeap_new', 'BinaryHeap_new', 'TernaryHeap_new',
             'PQH_push', 'PQH_pop', 'PQH_peek', 'PQH_empty', 'PQL_push', 'PQL_find', 'PQL_pop', 'PQL_peek', 'PQL_empty',
             'DODA_modify_c', 'DODA_append_z', 'DODA_delete_z', 'DODA_new', 'ODA_new', 'ODA_getitem', 'SLL_append', 'SLL_extract', 'SLL_insert_at',
             'PQB_push', 'PQB_pop', 'PQB_peek', 'PQB_empty', 'PQB_new', 'Bin_add', 'Bin_merge_tree', 'Bin_last', 'Bin_merge', 'Bin_find', 'Bin_insert', 'Bin_delete_min', 'Bin_empty'], budget=6, level='proof',
     note='Proved for every history, every arity and every comparator between < and <=: d-ary heaps (construction included) and the priority queues on binary heaps, linked lists and binomial heaps '
          '(there keys are exact numbers and a children array is used as the list of its entries, C06).',
     explanation='Heap order and the multiset of entries are a class invariant of the heap; each operation is proved to add or remove exactly the stated entry. '
                 'All of them also run on concrete histories against a multiset oracle.')
prop('C14', ['RQ_array', 'RQ_dynarray', 'RQ_dynarray_update', 'Seg_rquery', 'Seg_query', 'RQ_seg', 'Sparse_new', 'Sparse_query', 'RQ_sparse'], budget=6, level='other',
     note='Proved for every array, range and associative function: static and dynamic range queries on arrays, sparse tables (construction and query) and segment tree queries. '
          'Bounded stand-in: building and updating the segment tree.',
     explanation='The fold of a range is defined by recursion and proved to split; every query is proved to return the fold of exactly the requested range. '
                 'Histories of updates on segment trees run on concrete inputs against a fold oracle.')
prop('C23', ['BFS', 'DFS', 'BFSP'], budget=6, level='other',
     note='breadth_first_search, its parallel version and depth_first_search proved for both representations over the view of neighbors() (property C22): every reachable vertex is handed to the operation '
          'exactly once, in the order of its distance for the breadth-first ones. The dispatchers and neighbors() itself are covered by concrete runs.',
     explanation='Reachability and distance are defined over the adjacency view; the traversals are proved to visit exactly the reachable vertices. '
                 'Concrete runs compare whole traversals with an independent oracle.')
prop('C13', ['MS_init', 'MS_add', 'MS_remove', 'MS_count', 'MS_contains', 'MS_len', 'MS_lower', 'MS_upper'], budget=6, level='other',
     note='Every operation proved for every history over the set semantics of the red-black tree it uses (that tree is the subject of C16/C17); the abstract counts are a ghost field and the length is their sum. '
          'Construction from several elements is a loop of add, covered by concrete runs.',
     explanation='The class invariant ties the dictionary, the set of keys in the tree and the running length to the abstract counts; each operation changes the counts exactly as stated. '
                 'Concrete histories run the multiset with its real tree against a counting oracle.')
prop('C18', ['T_pre', 'T_in', 'T_post', 'T_out', 'T_bfs', 'T_dfs'], budget=6, level='proof',
     note='All four depth-first orders, the dispatcher and the breadth-first traversal proved for every finite binary tree: every node of the subtree is returned exactly once, at its number in the order, '
          'and nothing of the tree is written. The numberings are given by their recursive definition; that the links form a finite tree is the premise (C16).',
     explanation='The stack (queue) invariant says which numbers are still to come: consecutive stack entries own consecutive intervals of the numbering.')
prop('C16', ['BST_search', 'BST_bound', 'BST_lower', 'BST_upper', 'BST_rank', 'BST_select', 'BST_path', 'BST_lca1', 'BST_lca2', 'BST_lca',
             'BM_search', 'BM_sizes', 'BM_insert', 'BM_delete', 'TA_modify', 'TA_append', 'TA_delete'], budget=9, level='other',
     note='Proved for every search tree: search (with and without the parent), lower and upper bound, rank, select and both lowest-common-ancestor algorithms with their dispatcher; and, for every history on BinarySearchTree, '
          'insert and delete (the set of keys and the data change as stated; every left subtree is below and every right subtree above its root; links, parents, sizes; termination) down to the compaction of the node array. '
          'The queries state the tree by its in-order numbering, the mutators by the sets of nodes of the subtrees: that a finite tree of the second kind has a numbering of the first is not machine-checked. '
          'Bounded stand-in: insert and delete of the self-balancing subclasses.',
     explanation='All obligations of the queries, of insert and delete of BinarySearchTree and of the node array are discharged from their current source; all classes also run on concrete histories, '
                 'every tree checked against the premise and a sorted-map oracle.')
prop('C27', ['Kahn', 'TopSort'], budget=8, level='other',
     note='topological_sort (Kahn) proved for every graph over the views of the vertex list and of neighbors() (C22): every vertex once, every edge forward, ValueError exactly for cyclic graphs, termination. '
          'Bounded stand-in: the parallel version (it edits a copy of the graph). Trusted: cardinality facts of finite sets.',
     explanation='In-degrees are tied to the ghost set of not yet processed predecessors; each emitted vertex has a position after those of all its predecessors. Both algorithms run on concrete graphs against an oracle.')
prop('C26', ['BellmanFord', 'Dijkstra', 'ShortestPaths', 'FloydWarshall', 'AllPairs'], budget=8, level='other',
     note='shortest_paths (both algorithms and the dispatcher) and Floyd-Warshall proved for every weighted graph over the views of the vertex list, of neighbors() (C22) and of the priority queue (C10, C11): '
          'every finite distance is the weight of a walk, no walk is shorter, predecessors are edges that attain the distance, ValueError exactly when a negative cycle can be reached. '
          'Not proved: termination of Bellman-Ford. Bounded stand-in: Johnson (it edits the graph in place).',
     explanation='Walks are the least relation closed under edges; feasible potentials bound walks from below (induction), every distance is witnessed by a walk. '
                 'The Bellman-Ford alarm is tied to a chain of relaxations that must close a negative cycle (pigeonhole). Concrete runs compare all algorithms with an independent oracle.')
prop('C04', ['Perm_util', 'NextPerm', 'PrevPerm', 'MatHelper', 'MatMul', 'LCS', 'ODA_getitem', 'ODA_setitem', 'ODA_new'], budget=8, level='other',
     note='longest_common_subsequence, next_permutation, prev_permutation (with their helper, for every strict weak order) and parallel matrix multiplication proved for all inputs. '
          'Adjacency of permutations is stated by its characterisation (longest kept prefix, least greater element of the suffix, rest ascending). '
          'Bounded stand-in: longest_increasing_subsequence.',
     explanation='Common subsequences are the least relation closed under the three rules; the table satisfies the recurrence, which bounds every common subsequence (induction), and every cell holds a common subsequence. '
                 'Products are defined by recursion over the inner dimension. The longest increasing subsequence runs on concrete inputs against an oracle.')
prop('C02', ['CountingSort', 'RadixSort', 'ODA_getitem_in', 'ODA_setitem_t', 'ODA_new', 'ODA_len'], budget=6, level='other',
     note='counting_sort and radix_sort proved for every integer array (None entries, duplicates, every range of radix sort, every number of digits): same elements, each once, non-decreasing, None last, frame, termination. '
          'Bounded stand-in: bucket sort, and all three on dynamic arrays.',
     explanation='Counting is defined by recursion over the array; every output position is shown to receive exactly one element. Radix passes keep the order by the lower digits (stability). '
                 'Bucket sort runs on concrete arrays (exhaustive small ones, then random) against sorted().')
prop('C21', ['Trie_present', 'Trie_inserted', 'Trie_insert', 'Trie_delete'], budget=6, level='other',
     note='insert, delete, is_present and is_inserted proved for every trie and every string: exactly the stated change of the set of strings, a non-empty prefix is present exactly when some string starts with it, '
          'no empty branch, nothing changed when deleting an absent string, termination. Bounded stand-in: strings_with_prefix.',
     explanation='Words are a free algebra; the class invariant maps every prefix of a present string to its node and nothing else. Listing runs on concrete histories against a set of strings.')
prop('C22', ['AM_adjacent', 'AM_get_edge', 'AM_add_edge', 'AM_remove_edge', 'AM_neighbors', 'AM_new', 'AL_adjacent', 'AL_get_edge', 'AL_neighbors', 'AL_count', 'AL_add_vertex', 'AL_add_edge', 'AL_remove_edge', 'AL_remove_vertex', 'AL_new'],
     budget=8, level='other',
     note='Both representations proved for every graph: construction, adding and removing edges and vertices, adjacency, neighbours, stored weights, each with everything else unchanged. '
          'Premise: vertex names are no attribute names; the string keys of different edges differ (known finding K01 where they do not). Bounded stand-in: num_edges, the dispatcher Graph.__new__.',
     explanation='Attributes with computed names are a dictionary of the object; the class invariant ties vertex list, objects, adjacency lists (matrix rows) and weights together. Concrete histories run against a set-based oracle.')
prop('C08', ['SL_path', 'SL_search', 'SL_insert', 'SL_extract', 'SL_new', 'SL_size'], budget=8, level='proof',
     note='Constructor, search, insert, extract and size proved for every skip list, every key and every outcome of the random bits: exactly the stated change of the set of entries (the newest of equal keys first), '
          'KeyError exactly for absent keys and then nothing changed, every level sorted and a subsequence of the level below, termination. The string form is covered by concrete runs.',
     explanation='Nodes of a tower share a place on the real line; the class invariant orders every level by place, links each node to its immediate successor and to the next node of its tower.')
prop('C17', ['Rot_update', 'Rot_right', 'Rot_left', 'Rot_left_right', 'Rot_right_left', 'Splay_zig', 'Splay_zigzig', 'Splay_zagzag', 'Splay_zigzag', 'Splay_zagzig', 'Splay', 'Cart_bubble', 'Cart_trickle', 'RB_fix_insert', 'Avl_right', 'Avl_left', 'Avl_left_right', 'Avl_right_left'],
     budget=8, level='other',
     note='Proved for every tree: all rotations (links, root, in-order sequence, sizes, AVL heights), splaying (the node becomes the root), both repairs of the treap order and the red-black repair after an insertion. '
          'Bounded stand-in: whole histories of insert and delete, the AVL walks to the root, red-black deletion, join and split.',
     explanation='A tree is a set of indices with places on the real line; a rotation keeps the places, so it keeps the in-order sequence. The loops are proved to restore the balance condition of the kind of tree. '
                 'Histories run on concrete inputs against an oracle of the balance conditions.')
prop('C25', ['Kos_visit', 'Kos_assign', 'Kosaraju'], budget=6, level='other',
     note="Kosaraju's algorithm proved for every directed graph over the views of the vertex list and of neighbors() (C22): a partition of the vertices in which two vertices share a class exactly when each reaches the other, termination. "
          "Bounded stand-in: Tarjan's algorithm and find_bridges. Trusted: induction along paths (reachability is the least relation).",
     explanation='Every finished vertex has a vertex of its component that is still open or that finished after everything it reaches; the second pass collects the unassigned vertices that reach the last finished one. '
                 'All three algorithms run on concrete graphs against an oracle.')
prop('C24', ['Kruskal', 'KruskalP', 'Prim'], budget=6, level='other',
     note="Kruskal's algorithm (sequential and parallel) and Prim's proved for every weighted undirected graph over the views of the disjoint-set forest (C12), the priority queue (C10, C11) and the graphs (C22). "
          'Minimality is stated by its characterisations: the chosen edges close no cycle and connect the ends of every edge without a heavier edge (cycle property); '
          "every edge of Prim's tree is lightest among those that leave the tree when it is added (cut property). Bounded stand-in: parallel Prim, _sort_edges, the dispatchers.",
     explanation='Connection by chosen edges is defined by recursion over the edge list; the partition of the forest is proved to be this relation. All algorithms run on concrete graphs against an oracle.')

prop('C28', ['MF_bfs', 'EdmondsKarp', 'Dinic_dfs', 'Dinic'], budget=6, level='other',
     note="Edmonds-Karp and Dinic's algorithm proved for every graph with non-negative capacities: the value returned is the value of a legal flow (antisymmetric, within the capacities, conserved at every other vertex), and a cut around the source that leaves out the sink is saturated by it. "
          'By weak duality (assumed mathematics) it is the maximum flow and the minimum cut. Not proved: termination of the loops over augmenting paths; the generator _residual_edges is a view (assumed contract). Bounded stand-in: these, and max_flow itself.',
     explanation='The flow is read off the dictionary by definition; the net flow of a row is an abstract sum of which only the change of one entry is assumed. All algorithms run on concrete graphs against all cuts.')
prop('C19', ['Seg_union', 'Seg_intersect', 'Seg_contains', 'Seg_iterate', 'Seg_query_'], budget=6, level='other',
     note='query proved for every tree that satisfies the conditions build() establishes and every point: exactly the intervals containing the point, each once, nothing written, termination; with containment, '
          'intersection and union of open, half-open and closed intervals, and the step to the children, for all real end points. Bounded stand-in: build (which establishes the premise), the cache, the string form.',
     explanation='Nodes are numbered in pre-order and own an interval of numbers; a node that holds the point and is still to come lies below exactly one stack entry. Building and querying run on concrete collections against direct stabbing.')
prop('C11', ['Bin_add', 'Bin_merge_tree', 'Bin_last', 'Bin_merge', 'Bin_find', 'Bin_insert', 'Bin_delete_min', 'Bin_decrease', 'Bin_delete', 'Bin_empty', 'Bin_new'], budget=6, level='proof',
     note='Constructor (of the empty heap), merge, insert, find_minimum, delete_minimum, decrease_key, delete and is_empty proved for every heap: exactly the stated change of the entries, the least key is found, heap order, '
          'child k of order k, root orders strictly increasing, termination. Premise: merged heaps share no nodes, a node passed in belongs to the heap. '
          'Assumed: a children array is used as the list of its entries (C06); keys are exact numbers. A heap built from given trees is covered by concrete runs only.',
     explanation='The nodes below a node are a ghost set per node, with a ghost index that says below which child a node lies; decrease_key moves entries between nodes by a ghost permutation. '
                 'Whole histories also run on concrete inputs against a multiset and the structural conditions.')
