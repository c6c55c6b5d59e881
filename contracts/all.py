from . import arrays, sorts, searches, dsu, doda, stackq, strings, fenwick, linked, linkedsq, heaps, props       # noqa: F401
from . import pqueues, absq, ranges, graphs, multiset, travs, bst, topo, paths, seqs
from . import distsort
from . import tries, graphreps, skiplist
from . import rotations
from . import scc, mst, prim, flows, segtree, binomial, treearr, bstmod
