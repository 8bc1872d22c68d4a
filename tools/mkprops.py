import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Graph structure stays consistent under every mutation history",
 "After any sequence of creating nodes and edges, relabelling edges, removing edges, detaching nodes and removing nodes, the graph contains exactly the nodes and edges created and not removed: every live edge is listed exactly once by the graph, exactly once among the outgoing edges of its source and exactly once among the incoming edges of its target, and nowhere else. Removing or detaching a node removes all edges adjacent to it and no other edge. The reported numbers of nodes and edges always equal the sizes of those sets.",
 ["histories","inputs"],"all sequences of NewNode/NewEdge/SetLabel/Remove/Detach/DetachAndRemove on graphs of any size and shape, including self-loops and parallel edges",
 "The tests build a few fixed graphs, remove one inner node once and never remove an edge, relabel an edge or remove the last node; the claim quantifies over all histories.",
 ["graph.go","node.go","edge.go","list.go","edgemap.go"],
 [("intrusive doubly linked lists of nodes and edges","list.go: nodeList, edgeList add/remove"),("per-label edge lists with a one-edge shortcut","edgemap.go: edgeMap add/remove"),("connect/disconnect/detach","graph.go: FastNewEdge, cloneEdge, removeEdge, setEdgeLabel, detachNode, detachRemoveNode")],
 [("allEdges","every live edge of the graph, by label","graph.go Graph.allEdges"),("incoming/outgoing","edges adjacent to a node","node.go Node.incoming, Node.outgoing"),("allNodes","every live node","graph.go Graph.allNodes")],
 ["Graph.GetNodes","Graph.GetEdges","Node.GetEdges","Graph.NumNodes","Graph.NumEdges"])

p("C02","Identifiers are unique within a graph and never reused",
 "Every node and every edge of a graph receives an identifier different from that of every other node and edge ever created in the same graph, however it was created, including by copying. An identifier is never handed out again after its owner is removed, and it does not change while the owner lives.",
 ["histories"],"all histories of node and edge creation, copying and removal",
 "No test looks at identifiers after a removal or a copy; uniqueness is over unbounded histories.",
 ["graph.go","node.go","edge.go"],
 [("per-graph counter incremented at each creation","graph.go: FastNewNode, FastNewEdge, cloneNode, cloneEdge")],
 [("idBase","next identifier","graph.go Graph.idBase")],["Node.GetID","Edge.GetID"])

p("C03","Edge enumeration by direction and label is exact",
 "Enumerating the edges of a graph or of a node, restricted by direction, by one label or by a set of labels, yields exactly the live edges that satisfy the restriction, each exactly once, and then terminates. When both directions are requested the result is the incoming edges followed or interleaved with the outgoing edges, so that only a self-loop appears twice.",
 ["inputs","histories"],"all graphs reachable by any mutation history, all nodes, directions, labels and label sets",
 "Tests enumerate a handful of line and circle graphs and mostly check nothing about multiplicity; the representation switches between one-edge and many-edge, one-label and many-label forms that samples do not cover jointly.",
 ["edgemap.go","list.go","node.go","graph.go","itr.go"],
 [("iterators over the per-label edge lists","edgemap.go: iterator, iteratorLabel, iteratorAnyLabel, allEdgesItr; list.go: edgeListIterator"),("direction dispatch","node.go: GetEdges, GetEdgesWithLabel, GetEdgesWithAnyLabel")],
 None,["Node.GetEdges","Node.GetEdgesWithLabel","Node.GetEdgesWithAnyLabel","Graph.GetEdges","Graph.GetEdgesWithAnyLabel"])

p("C04","Label lookup returns exactly the nodes carrying all the labels",
 "Whatever labels nodes were created with and however they were relabelled, copied or removed since, looking up nodes by a non-empty set of labels yields exactly the live nodes whose current labels include all of them, each exactly once. A node map keyed by label likewise enumerates exactly the nodes it holds.",
 ["histories","inputs"],"all histories of node creation, relabelling (including to and from no labels) and removal; all non-empty label sets",
 "One test adds thirty fixed nodes and queries three label sets; no test relabels or removes and then queries.",
 ["maps.go","indexes.go","graph.go","stringset.go"],
 [("label to node-set map updated on add, remove and relabel","maps.go: Add, Remove, Replace"),("smallest label set filtered by the remaining labels","maps.go: IteratorAllLabels")],
 [("nodesByLabel","nodes indexed by label","indexes.go graphIndex.nodesByLabel")],["Graph.GetNodesWithAllLabels","NodeMap.Iterator"])

p("C05","Property index lookups always agree with the stored properties",
 "For a property that has an index of either kind, created before or after the data, looking up a value yields exactly the live nodes (or edges) whose current value of that property equals it, each once, and listing the property yields exactly the live nodes (or edges) that currently have it. This stays true after any sequence of property updates, property removals, node and edge creation, copying and removal.",
 ["histories","inputs"],"all mutation histories interleaved with index creation; both index kinds; node and edge properties of comparable values",
 "The two index tests add sixty nodes after creating the index and look up one value; no test updates or removes an indexed property, indexes edges, or indexes existing data.",
 ["indexes.go","hashindex.go","btreeindex.go","graph.go","properties.go","sets.go"],
 [("index maintenance on property update and removal","graph.go: setNodeProperty, removeNodeProperty, setEdgeProperty, removeEdgeProperty"),("index maintenance on creation and removal","indexes.go: addNodeToIndex, removeNodeFromIndex, addEdgeToIndex, removeEdgeFromIndex"),("index structures","hashindex.go: hashIndex; btreeindex.go: setTree")],
 [("nodeProperties/edgeProperties","property name to index","indexes.go graphIndex")],["Graph.GetNodesWithProperty","Graph.GetEdgesWithProperty","Graph.FindNodes","Graph.FindEdges"])

p("C06","Finding nodes and edges returns exactly the matches, whatever the indexes",
 "Finding nodes by labels and properties yields exactly the live nodes that carry all the labels and have all the property values; finding edges yields exactly the live edges whose label is one of the given labels (any, if none given) and that have all the property values. The result does not depend on which indexes exist, and the search never panics.",
 ["inputs","configurations"],"all graphs, all label sets (also empty), all property constraints, all index configurations",
 "No test calls the find functions; which code path runs depends on sizes and on which indexes exist.",
 ["graph.go","indexes.go","maps.go"],
 [("choice of the cheapest candidate enumeration followed by a filter","graph.go: FindNodes, FindEdges"),("filter","graph.go: GetNodeFilterFunc, GetEdgeFilterFunc")],
 None,["Graph.FindNodes","Graph.FindEdges"])

p("C07","Property value comparison is a consistent total order",
 "On supported values (integers, strings, and lists of integers, of strings or of supported values, also when wrapped in an object exposing a native value) comparison returns -1, 0 or 1, is zero on a value and itself, is antisymmetric and is transitive, and orders lists lexicographically. Values that cannot be compared cause a panic rather than a wrong answer.",
 ["inputs"],"all pairs and triples of property values",
 "No test calls comparison directly; ordered indexes are only correct if it is a total order over all values.",
 ["properties.go"],
 [("type-directed comparison","properties.go: ComparePropertyValue")],None,["ComparePropertyValue"])

p("C08","String sets are mathematical sets with value semantics",
 "Membership, any-of, all-of, equality, size, union and difference of string sets agree with the mathematical operations for all arguments, including nil and empty sets. A copy of a set is never affected by later additions to or removals from the original, and conversely.",
 ["inputs","histories"],"all sets, all argument lists, all interleavings of operations on a set and its copies",
 "No test covers string sets; copies share storage internally, so independence is a property over histories of operations.",
 ["stringset.go"],
 [("copy on write","stringset.go: Add, AddSet, Remove"),("membership tests","stringset.go: Has, HasAny, HasAnySet, HasAll, HasAllSet, IsEqual")],None,["StringSet"])

p("C09","Iterator adapters neither lose nor invent elements and size hints are sound",
 "Filtering, mapping, de-duplicating, concatenating and resizing iterators yield exactly the elements the combination calls for, each as often as the inputs call for, and an exhausted iterator stays exhausted. A size hint is either -1 or at least the number of elements the iterator will still yield when it is created; collecting an iterator into a slice returns exactly its elements.",
 ["inputs","histories"],"all underlying sequences, all predicates, all numbers of concatenated iterators",
 "Iterators are only exercised on the few sequences the other tests need; adapters are composed from arbitrary underlying sequences.",
 ["itr.go","edgemap.go","sets.go"],
 [("adapters","itr.go: filterIterator, procIterator, funcIterator, MultiIterator, makeUniqueIterator, withSize, listIterator, nodesFromEdgesIterator"),("collectors","itr.go: NodeSlice, EdgeSlice, TargetNodes, SourceNodes")],None,["Iterator.Next","Iterator.MaxSize"])

p("C10","Paths stay connected and positional access agrees with the sequence",
 "Every path built by appending edges or paths is connected: each element starts at the node where the previous one ends, and an attempt to append a disconnected element panics and changes nothing. First, last, n-th node, n-th edge, counts, sub-paths, prefix tests and dropping the first or last element agree with the node sequence of the path, and no operation changes its argument, another path or the graph.",
 ["inputs","histories"],"all paths, all positions, all sequences of path operations",
 "Path tests check two slices of one path and that an append does not crash.",
 ["path.go","cursor.go"],
 [("connectivity check on append","path.go: Append, AppendPath"),("positional access","path.go: GetNode, GetEdge, First, Last, Slice, HasPrefix, HasPrefixPath, RemoveFirst, RemoveLast")],None,["Path"])

p("C11","Variable-length path collection returns exactly the bounded trails",
 "Collecting variable-length paths from a node yields exactly the non-empty trails (paths that repeat no edge) that start with one of the given first edges, follow the requested direction, use only accepted edges after the first, and have a length within the bounds, each exactly once. It stops as soon as the consumer says so and terminates on every finite graph, including cyclic ones.",
 ["inputs"],"all finite graphs, start nodes, directions, edge predicates and length bounds",
 "The test runs one four-node graph and asserts nothing.",
 ["vpathitr.go","path.go"],
 [("recursive descent with an edge-repetition check","vpathitr.go: CollectAllPaths")],None,["CollectAllPaths"])

p("C12","Copying reproduces the source and leaves it unchanged",
 "Copying a graph into another adds to the target exactly one node per source node and one edge per source edge, with the same labels, the same properties as transformed by the caller's function, and endpoints that are the copies of the original endpoints; the returned correspondence is exact. The source graph is unchanged, and later changes to either graph never show in the other.",
 ["inputs","histories"],"all source graphs, all target graphs other than the source, all property transformations",
 "One test copies a ten-node line and checks it with the isomorphism checker, which is itself untested.",
 ["clone.go","graph.go","properties.go"],
 [("node and edge cloning","graph.go: cloneNode, cloneEdge; properties.go: clone"),("traversal","clone.go: CopyGraph, CopyGraphf, CopySubgraph, CopyNode, CopyEdge")],None,["CopyGraph","CopyGraphf","CopySubgraph"])

p("C13","Isomorphism checking is correct",
 "The isomorphism check answers yes exactly when there is a one-to-one correspondence between all nodes of the two graphs, and between all their edges, that pairs only equivalent nodes and equivalent edges and maps endpoints to endpoints. Cancelling the context ends it with the context's error and never with a wrong answer.",
 ["inputs"],"all pairs of graphs and all equivalence functions",
 "The only test asks about two identical lines and expects yes.",
 ["alg.go"],
 [("enumeration of candidate correspondences","alg.go: CheckIsomorphism")],None,["CheckIsomorphism"])

p("C14","JSON encoding and decoding round-trip every graph",
 "Encoding any graph, with edges nested or separate, produces valid JSON that lists every node once under a distinct index and every edge once with its endpoints, label and properties; decoding it yields a graph isomorphic to the original with the same labels and properties. Decoding a document whose edges refer to undeclared nodes reports an error.",
 ["inputs","configurations"],"all graphs with JSON-representable property values; both encodings; all documents",
 "One test encodes an empty, a one-node and a two-node graph and checks that decoding returns no error.",
 ["json.go"],
 [("encoder","json.go: Encode"),("decoder with deferred edges","json.go: Decode, addNode, addEdge, unmarshalProperties")],None,["JSON.Encode","JSON.Decode"])

p("C15","Pattern search returns exactly the matching paths",
 "Running a pattern of fixed-length steps reports exactly one result for every way of assigning graph nodes and edges to the pattern's elements that satisfies the labels, properties, directions and variable constraints, and the reported path and variable bindings are that assignment. The set of results does not depend on which element the search starts from or on which indexes exist.",
 ["inputs","configurations"],"all graphs, all patterns, all index configurations",
 "The pattern tests run a few small line and circle graphs and compare counts.",
 ["pattern.go","planprocessors.go"],
 [("choice of start element and plan","pattern.go: GetPlan, getFastestElement"),("backtracking search","planprocessors.go: iterateNodes, iterateEdges, iterateConnectedEdges, iterateConnectedNodes")],None,["Pattern.Run","Pattern.FindPaths","Pattern.FindNodes"])

p("C16","Node and edge sets hold each member exactly once",
 "A node set or edge set contains exactly the members added and not removed since, whatever the order and repetition of additions and removals; its size is their number, and iterating or slicing it yields each member exactly once.",
 ["histories"],"all sequences of Add, Remove, Has, Len and Iterator",
 "No test exercises the sets on their own.",
 ["sets.go"],
 [("hash map over a linked list","sets.go: fastSet add/remove/get/has/iterator")],None,["NodeSet","EdgeSet"])

p("C17","String tables keep indexes stable and reference counts exact",
 "As long as a string has been allocated more often than freed, its index stays the same and maps back to the string; different live strings have different indexes, and a string whose every allocation was freed is no longer found. Interning returns a string equal to its argument.",
 ["histories"],"all sequences of allocate, free, lookup and intern",
 "One test performs a short fixed sequence.",
 ["stringtable.go","json.go"],
 [("free list threaded through the counters","stringtable.go: allocate, free, lookup, str"),("interner","json.go: MapInterner.Intern")],None,["stringTable","MapInterner"])

p("C18","Derived neighbourhood queries agree with the edges",
 "Sources, sinks, edges between two nodes, nodes reached over a label, and cursor navigation return exactly what the current edges imply: sources are the nodes without incoming edges, sinks those without outgoing edges, edges between two nodes are all edges from the first to the second, and neighbours in a direction are the nodes at the far end of the edges in that direction, each once.",
 ["inputs"],"all graphs, nodes, labels and directions",
 "No test covers these queries.",
 ["alg.go","node.go","itr.go","cursor.go"],
 [("filtered node enumeration","alg.go: SourcesItr, SinksItr, EdgesBetweenNodes"),("far-end projection","itr.go: TargetNodes, SourceNodes, nodesFromEdgesIterator; cursor.go")],None,["Sources","Sinks","EdgesBetweenNodes","NextNodesWith","PrevNodesWith","Cursor"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
