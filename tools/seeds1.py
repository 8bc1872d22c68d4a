#!/usr/bin/env python3
import seedlib
SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks, imports=(), extra=''):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, imports=list(imports), extra=extra)

seed('c01-label-list-dropped', 'C01', [('edgemap.go', '''	if ell.edges.n == 0 {
		em.edgeLabelLists.Remove''', '''	if ell.edges.n <= 1 {
		em.edgeLabelLists.Remove''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	x1 := g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "y", nil)
	g.NewEdge(a, b, "y", nil)
	x1.Remove()
	n := 0
	for e := g.GetEdges(); e.Next(); {
		n++
	}
	if n != 3 || g.NumEdges() != 3 {
		t.Fatalf("%d edges listed, %d counted", n, g.NumEdges())
	}
''', 'two edges of one label and edges of another label; one of the two is removed', 'the other edge with the same label is no longer listed by the graph and its nodes')

seed('c01-detach-self-loop', 'C01', [('graph.go', '''	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
		g.disconnect(edge)''', '''	incoming, outgoing := EdgeSlice(node.incoming.iterator(2)), EdgeSlice(node.outgoing.iterator(1))
	for _, edge := range incoming {
		g.disconnect(edge)'''), ('graph.go', '''	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		g.disconnect(edge)''', '''	for _, edge := range outgoing {
		g.disconnect(edge)''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(b, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	a.Detach()
	n := 0
	for e := g.GetEdges(); e.Next(); {
		n++
	}
	if n != 3 || g.NumEdges() != 3 {
		t.Fatalf("%d edges listed, %d counted", n, g.NumEdges())
	}
''', 'a self-loop on the detached node, with several more edges of the same label in the graph', 'a self-loop is removed twice from the list of all edges, which corrupts the count and the list')

seed('c02-id-reuse', 'C02', [('graph.go', '''	g.detachNode(node)
	g.allNodes.remove(node)
''', '''	g.detachNode(node)
	g.allNodes.remove(node)
	if node.id == g.idBase-1 {
		g.idBase--
	}
''')], '''
	g := NewGraph()
	g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	id := b.GetID()
	b.DetachAndRemove()
	if c := g.NewNode(nil, nil); c.GetID() == id {
		t.Fatalf("id %d reused", id)
	}
''', 'the most recently created object is a node, it is removed, and another node or edge is created', 'the identifier of a removed node is handed out again')

seed('c02-copied-edge-id', 'C02', [('graph.go', '''		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
	}
	g.idBase++
''', '''		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
		g.idBase++
	}
''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	h := NewGraph()
	c, d := h.NewNode(nil, nil), h.NewNode(nil, nil)
	e1 := CloneEdge(c, d, e, h, func(_ string, v interface{}) interface{} { return v })
	e2 := h.NewEdge(c, d, "x", nil)
	if e1.GetID() == e2.GetID() {
		t.Fatalf("both edges have id %d", e1.GetID())
	}
''', 'an edge without properties is copied into a graph and something else is created there', 'a copied edge shares its identifier with the next object')

seed('c03-any-label-stops', 'C03', [('edgemap.go', '''				if _, found := em.labelMap[strings[0]]; !found {
					strings = strings[1:]
					continue
				}
''', '''				if _, found := em.labelMap[strings[0]]; !found {
					strings = nil
					continue
				}
''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "y", nil)
	for i := 0; i < 200; i++ {
		n := 0
		for e := a.GetEdgesWithAnyLabel(OutgoingEdge, NewStringSet("x", "y", "z1", "z2", "z3")); e.Next(); {
			n++
		}
		if n != 2 {
			t.Fatalf("%d edges", n)
		}
	}
''', 'a set of labels with a label no edge has, visited before one that edges have; at least two edges', 'enumeration by a set of labels stops at the first label without edges')

seed('c03-label-iterator-slot', 'C03', [('edgemap.go', '''	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: ell.edges.n, ix: listIndex}}''', '''	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: ell.edges.n}}''')], '''
	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(c, b, "x", nil)
	g.NewEdge(a, c, "x", nil)
	for e := a.GetEdgesWithLabel(OutgoingEdge, "x"); e.Next(); {
		if e.Edge().GetFrom() != a {
			t.Fatalf("edge of another node")
		}
	}
''', 'two outgoing edges with the label at the node, followed by edges of other nodes with that label', 'enumerating the edges of a node by label follows the list of all edges and yields edges of other nodes')

seed('c04-replace-removed-label', 'C04', [('maps.go', '''	if newLabels.Len() == 0 {
		nm.nolabels.add(node.id, node)
	}
	var set''', '''	if newLabels.Len() == 0 {
		nm.nolabels.add(node.id, node)
	} else if oldLabels.HasAllSet(newLabels) {
		// Nothing to add
		return
	}
	var set''')], '''
	g := NewGraph()
	a := g.NewNode([]string{"p", "q"}, nil)
	nm := NewNodeMap()
	nm.Add(a)
	old := a.GetLabels()
	a.SetLabels(NewStringSet("p"))
	nm.Replace(a, old, a.GetLabels())
	nm.Remove(a)
	if !nm.IsEmpty() {
		t.Fatalf("map is not empty")
	}
''', 'a node loses some, but not all, of its labels and gains none', 'the node stays listed under the labels it lost')

seed('c04-any-of-labels', 'C04', [('maps.go', 'return onode.labels.HasAllSet(labels)', 'return labels.Len() == 1 || onode.labels.HasAny(labels.Slice()[1:]...)')], '''
	g := NewGraph()
	g.NewNode([]string{"p", "q"}, nil)
	g.NewNode([]string{"p", "r"}, nil)
	g.NewNode([]string{"q", "r"}, nil)
	g.NewNode([]string{"p", "q", "r"}, nil)
	for i := 0; i < 200; i++ {
		n := 0
		for x := g.GetNodesWithAllLabels(NewStringSet("p", "q", "r")); x.Next(); {
			n++
		}
		if n != 1 {
			t.Fatalf("%d nodes", n)
		}
	}
''', 'a lookup by at least two labels where nodes carry only some of them', 'nodes that lack a label are returned')

seed('c05-same-value-update', 'C05', [('graph.go', '''		oldValue, exists := node.properties[key]
		if exists {
			if nix != nil {''', '''		oldValue, exists := node.properties[key]
		if exists {
			if nix != nil && ComparePropertyValue(oldValue, value) != 0 {''')], '''
	g := NewGraph()
	g.AddNodePropertyIndex("k", HashIndex)
	a := g.NewNode(nil, map[string]interface{}{"k": "v"})
	a.SetProperty("k", "v")
	n := 0
	for x := g.GetNodesWithProperty("k"); x.Next(); {
		n++
	}
	if n != 1 {
		t.Fatalf("node listed %d times", n)
	}
''', 'a hash index, and a property set again to the value it already has', 'the node is listed twice among the nodes that have the property')

seed('c05-break-at-unindexed', 'C05', [('indexes.go', '''	for k, v := range edge.properties {
		index, found := g.edgeProperties[k]
		if !found {
			continue
		}
		index.add(v, edge.id, edge)''', '''	for k, v := range edge.properties {
		index, found := g.edgeProperties[k]
		if !found {
			break
		}
		index.add(v, edge.id, edge)''')], '''
	g := NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	a := g.NewNode(nil, nil)
	for i := 0; i < 200; i++ {
		g.NewEdge(a, a, "x", map[string]interface{}{"k": "v", "l": "w", "m": "z"})
	}
	n := 0
	for x := g.GetEdgesWithProperty("k"); x.Next(); {
		n++
	}
	if n != 200 {
		t.Fatalf("%d edges of 200", n)
	}
''', 'an edge created with an indexed and an unindexed property, the unindexed one visited first', 'the edge is missing from the index')

seed('c06-label-filter-dropped', 'C06', [('graph.go', '''	edgeFilterFunc := GetEdgeFilterFunc(labels, properties)
''', '''	edgeFilterFunc := GetEdgeFilterFunc(StringSet{}, properties)
''')], '''
	g := NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", map[string]interface{}{"k": "v"})
	g.NewEdge(a, a, "y", nil)
	g.NewEdge(a, a, "y", nil)
	n := 0
	for x := g.FindEdges(NewStringSet("y"), map[string]interface{}{"k": "v"}); x.Next(); {
		n++
	}
	if n != 0 {
		t.Fatalf("%d edges", n)
	}
''', 'an index that is chosen over the labels, with an edge of another label under the value', 'edges whose label is not one of the given labels are returned when an index exists')

seed('c06-nil-property', 'C06', [('graph.go', '''			nodeValue, exists := node.GetProperty(k)
			if !exists {
				if v != nil {
					return false
				}
			}
''', '''			nodeValue, exists := node.GetProperty(k)
			if !exists {
				return v == nil
			}
''')], '''
	g := NewGraph()
	g.NewNode(nil, map[string]interface{}{"k": "v"})
	for i := 0; i < 200; i++ {
		n := 0
		for x := g.FindNodes(StringSet{}, map[string]interface{}{"k": "w", "l": nil}); x.Next(); {
			n++
		}
		if n != 0 {
			t.Fatalf("%d nodes", n)
		}
	}
''', 'a search by several properties, one of them nil and absent from the node, visited first', 'the remaining properties are not checked')

seed('c07-list-prefix', 'C07', [('properties.go', '''			for i := 0; i < l1 && i < l2; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			if l1 > l2 {
				return 1
			}
			return 0
		}
		if v2, ok := b.([]interface{}); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2; i++ {
				switch ComparePropertyValue(v1[i], v2[i]) {
				case -1:
					return -1
				case 1:
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			if l1 > l2 {
				return 1
			}
			return 0
		}

	case []int:''', '''			for i := 0; i < l1 && i < l2; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			if l1 > l2 {
				return 1
			}
			return 0
		}
		if v2, ok := b.([]interface{}); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2; i++ {
				switch ComparePropertyValue(v1[i], v2[i]) {
				case -1:
					return -1
				case 1:
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			return 0
		}

	case []int:''')], '''
	if c := ComparePropertyValue([]string{"a", "b"}, []interface{}{"a"}); c != 1 {
		t.Fatalf("got %d", c)
	}
''', 'a list of strings compared with a generic list that is a proper prefix of it', 'the longer list is equal to its prefix')

seed('c08-remove-in-place', 'C08', [('stringset.go', '''	m := set.M
	set.M = make(map[string]struct{}, len(m))
	for x := range m {
		has := false''', '''	if len(s) == 1 {
		delete(set.M, s[0])
		return set
	}
	m := set.M
	set.M = make(map[string]struct{}, len(m))
	for x := range m {
		has := false''')], '''
	a := NewStringSet("p", "q")
	b := a.Clone()
	a.Remove("p")
	if !b.Has("p") {
		t.Fatalf("the copy changed")
	}
''', 'a set is copied before a single string is removed from the original', 'removing a string from a set removes it from the copies')

seed('c08-add-nothing', 'C08', [('stringset.go', '''	m := set.M
	set.M = make(map[string]struct{}, len(s.M)+len(m))
	for x := range m {
		set.M[x] = struct{}{}
	}
''', '''	m := set.M
	if len(m) == 0 {
		set.M = s.M
		return set
	}
	if len(s.M) > len(m) {
		m, s.M = s.M, m
	}
	set.M = make(map[string]struct{}, len(s.M)+len(m))
	for x := range m {
		if len(s.M) == 0 || !s.Has(x) {
			set.M[x] = struct{}{}
		}
	}
	if len(m) == len(set.M) && len(s.M) > 1 {
		return set
	}
''')], '''
	a := NewStringSet("p", "q")
	a.AddSet(NewStringSet("r", "s"))
	if a.Len() != 4 {
		t.Fatalf("%d strings", a.Len())
	}
''', 'the union of two disjoint sets of at least two strings', 'the strings of one of the sets are lost')

seed('c09-empty-middle', 'C09', [('itr.go', '''		itr.current = itr.iteratorFunc()
		if itr.current == nil {
			return false
		}
	}
}
''', '''		itr.current = itr.iteratorFunc()
		if itr.current == nil {
			return false
		}
		if itr.current.MaxSize() == 0 {
			return itr.current.Next()
		}
	}
}
''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	i := MultiIterator(a.GetEdges(OutgoingEdge), b.GetEdges(OutgoingEdge), b.GetEdges(IncomingEdge))
	n := 0
	for i.Next() {
		n++
	}
	if n != 2 {
		t.Fatalf("%d elements", n)
	}
''', 'a concatenation where an iterator known to be empty precedes one that is not', 'the iteration ends at the empty iterator')

seed('c09-size-hint', 'C09', [('maps.go', 'setItr := set.iterator()\n\titr.current = nodeIterator{withSize(setItr, -1)}', 'setItr := set.iterator()\n\titr.current = nodeIterator{withSize(setItr, set.size())}'), ('maps.go', '''	return nodeIterator{
		MultiIterator(''', '''	return nodeIterator{
		withSize(MultiIterator('''), ('maps.go', '''			nm.nolabels.iterator(),
		),
''', '''			nm.nolabels.iterator(),
		), nm.m.Size()+nm.nolabels.size()),
''')], '''
	g := NewGraph()
	nm := NewNodeMap()
	for i := 0; i < 3; i++ {
		nm.Add(g.NewNode([]string{"p"}, nil))
	}
	i := nm.Iterator()
	if m := i.MaxSize(); m != -1 && m < 3 {
		t.Fatalf("size hint %d for 3 nodes", m)
	}
''', 'a node map with more nodes than labels', 'the size hint of the iterator of a node map is the number of labels')

seed('c10-clone-shares', 'C10', [('path.go', '''	ret := Path{
		only: p.only,
		path: make([]PathElement, len(p.path)),
	}
	copy(ret.path, p.path)
	return &ret''', '''	ret := *p
	return &ret''')], '''
	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	ab := g.NewEdge(a, b, "x", nil)
	bc := g.NewEdge(b, c, "x", nil)
	ba := g.NewEdge(b, a, "x", nil)
	p := PathFromNode(a)
	p.Append(PathElement{Edge: ab}, PathElement{Edge: bc})
	q := p.Clone()
	p.RemoveLast()
	p.Append(PathElement{Edge: ba})
	if q.Last() != c {
		t.Fatalf("the clone changed")
	}
''', 'a path is cloned, its last edge is removed, and another edge is appended', 'the edge appended to one path shows up in the other')

seed('c10-prefix-order', 'C10', [('path.go', '''			return p.First() == p1.First()
		default:''', '''			return p.First() == p1.First() || p.Last() == p1.First()
		default:''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	p := PathFromNode(a)
	p.Append(PathElement{Edge: g.NewEdge(a, b, "x", nil)})
	if p.HasPrefixPath(PathFromNode(b)) {
		t.Fatalf("the last node is not a prefix")
	}
''', 'the prefix test of a path with edges against the single node at its end', 'the last node counts as a prefix')

seed('c11-stop-ignored', 'C11', [('vpathitr.go', '''				if !recurse(prefix.Clone().Append(pe)) {
					return false
				}''', '''				if !recurse(prefix.Clone().Append(pe)) {
					break
				}''')], '''
	g := NewGraph()
	a, b, c, d := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, c, "x", nil)
	g.NewEdge(a, d, "x", nil)
	calls := 0
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), func(*Edge) bool { return true }, OutgoingEdge, 1, -1, func(p *Path) bool {
		calls++
		return calls < 2
	})
	if calls != 2 {
		t.Fatalf("%d calls", calls)
	}
''', 'the consumer stops at a path of at least two edges while another first edge remains', 'the collection goes on after the consumer said stop')

seed('c11-self-loop-twice', 'C11', [('vpathitr.go', '''			makeUniqueIterator(&filterIterator{
				itr: prefix.Last().GetEdges(dir),
				filter: func(item interface{}) bool {
					return edgeFilter(item.(*Edge))
				},
			}),''', '''			&filterIterator{
				itr: prefix.Last().GetEdges(dir),
				filter: func(item interface{}) bool {
					return edgeFilter(item.(*Edge))
				},
			},''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	n := 0
	CollectAllPaths(g, a, a.GetEdges(AnyEdge), func(*Edge) bool { return true }, AnyEdge, 1, 5, func(p *Path) bool {
		n++
		return true
	})
	if n != 2 {
		t.Fatalf("%d paths", n)
	}
''', 'undirected collection that meets a self-loop after the first edge', 'paths over the self-loop are reported twice')

seed('c12-empty-properties-shared', 'C12', [('properties.go', '''	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty''', '''	if len(p) == 0 {
		return p
	}
	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty''')], '''
	g := NewGraph()
	a := g.NewNode(nil, nil)
	a.SetProperty("k", "v")
	a.RemoveProperty("k")
	h := NewGraph()
	m := CopyGraph(g, h, func(_ string, v interface{}) interface{} { return v })
	m[a].SetProperty("k", "w")
	if _, ok := a.GetProperty("k"); ok {
		t.Fatalf("the source changed")
	}
''', 'a node whose last property was removed before the copy, and a property set later on either side', 'source and copy share their property map')

seed('c12-subgraph-edge', 'C12', [('clone.go', '''		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)''', '''		if _, ok := nodeMap[edge.GetTo()]; ok && edge.GetTo() != sourceNode {
			if from := nodeMap[sourceNode]; len(EdgesBetweenNodes(from, nodeMap[edge.GetTo()])) > 0 {
				continue
			}
		}
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "y", nil)
	h := NewGraph()
	CopySubgraph(a, h, func(_ string, v interface{}) interface{} { return v }, map[*Node]*Node{})
	if h.NumEdges() != 2 {
		t.Fatalf("%d edges", h.NumEdges())
	}
''', 'two parallel edges between nodes of the copied subgraph', 'only one of the parallel edges is copied')

seed('c13-last-candidate', 'C13', [('alg.go', 'if nodeEquivalences[index] < len(equivalences[index]) {', 'if nodeEquivalences[index] < len(equivalences[index]) && (index == 0 || nodeEquivalences[index] < len(all1Nodes)-1) {')], '''
	g, h := NewGraph(), NewGraph()
	mk := func(g *Graph, o []int) {
		var n [3]*Node
		for i := range n {
			n[i] = g.NewNode(nil, nil)
		}
		g.NewEdge(n[o[0]], n[o[1]], "x", nil)
		g.NewEdge(n[o[1]], n[o[2]], "y", nil)
	}
	mk(g, []int{0, 1, 2})
	mk(h, []int{0, 2, 1})
	ok, err := CheckIsomorphism(context.Background(), g, h, func(*Node, *Node) bool { return true }, func(a, b *Edge) bool { return a.GetLabel() == b.GetLabel() })
	if !ok || err != nil {
		t.Fatalf("%v %v", ok, err)
	}
''', 'an isomorphism that must map a node other than the first to the last candidate', 'isomorphic graphs are reported as different', imports=['"context"'])

seed('c13-cancel', 'C13', [('alg.go', '''		if !next() {
			break
		}
		if err := ctx.Err(); err != nil {
			return false, err
		}
''', '''		if ctx.Err() != nil || !next() {
			break
		}
''')], '''
	g, h := NewGraph(), NewGraph()
	for _, x := range []*Graph{g, h} {
		a, b := x.NewNode(nil, nil), x.NewNode(nil, nil)
		if x == g {
			x.NewEdge(a, b, "x", nil)
		} else {
			x.NewEdge(b, a, "x", nil)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	ok, err := CheckIsomorphism(ctx, g, h, func(*Node, *Node) bool { return true }, func(*Edge, *Edge) bool { return true })
	if !ok || err != nil {
		t.Fatalf("%v %v", ok, err)
	}
	ok, err = CheckIsomorphism(ctx, g, h, func(*Node, *Node) bool { return true }, func(*Edge, *Edge) bool { cancel(); return false })
	if err == nil {
		t.Fatalf("answer %v although cancelled", ok)
	}
''', 'the context is cancelled while the permutations are tried', 'a cancelled check answers no instead of returning the error', imports=['"context"'])

seed('c14-queued-edge-properties', 'C14', [('json.go', '''				To:         edge.To,
				Label:      edge.Label,
				Properties: edge.Properties,
			})
		} else {''', '''				To:         edge.To,
				Label:      edge.Label,
			})
		} else {''')], '''
	g := NewGraph()
	doc := `{"nodes": [{"n": 0, "edges": [{"to": 1, "label": "x", "properties": {"k": "v"}}]}, {"n": 1}]}`
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(doc))); err != nil {
		t.Fatal(err)
	}
	for e := g.GetEdges(); e.Next(); {
		if _, ok := e.Edge().GetProperty("k"); !ok {
			t.Fatalf("property lost")
		}
	}
''', 'a nested edge with properties to a node that comes later in the document', 'the properties of the edge are lost', imports=['"encoding/json"', '"strings"'])

seed('c14-invalid-to', 'C14', [('json.go', '''					to, ok := nodeMap[edge.To]
					if !ok {
						return ErrInvalidGraph''', '''					to, found := nodeMap[edge.To]
					if !found {
						to = from
					}
					if !ok {
						return ErrInvalidGraph''')], '''
	g := NewGraph()
	doc := `{"nodes": [{"n": 0}], "edges": [{"from": 0, "to": 7}]}`
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(doc))); err == nil {
		t.Fatalf("no error")
	}
''', 'an edge whose target node is not declared', 'a self-loop is created instead of an error', imports=['"encoding/json"', '"strings"'])

BACK = '''			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useToNode)
				} else if !pattern'''
seed('c15-start-at-edge-backwards', 'C15', [('pattern.go', BACK, BACK.replace('useToNode', 'useFromNode'))], '''
	g := NewGraph()
	a, b := g.NewNode([]string{"p"}, nil), g.NewNode([]string{"q"}, nil)
	g.NewNode([]string{"p"}, nil)
	g.NewNode([]string{"q"}, nil)
	g.NewEdge(a, b, "x", nil)
	// (q)<-[x]-(p)
	pat := Pattern{{Labels: NewStringSet("q")}, {Labels: NewStringSet("x"), Min: 1, Max: 1, ToLeft: true}, {Labels: NewStringSet("p")}}
	acc, err := pat.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Fatalf("%v %v", len(acc.Paths), err)
	}
''', 'a left-pointing step that the search starts at', 'the node to the left of the first edge is taken from the wrong end')

seed('c15-symbol-overwritten', 'C15', [('planprocessors.go', '''			if constraints != nil && !constraints.Has(edge) {
				continue
			}
			path :=''', '''			if constraints != nil && constraints.Len() == 1 && !constraints.Has(edge) {
				continue
			}
			path :=''') if False else ('planprocessors.go', '''					filter: func(item interface{}) bool {
						return nodes.Has(item.(*Node))
					},''', '''					filter: func(item interface{}) bool {
						return nodes.Len() > 1 || nodes.Has(item.(*Node))
					},''')], '''
	g := NewGraph()
	a, b := g.NewNode([]string{"p"}, nil), g.NewNode([]string{"p"}, nil)
	g.NewNode([]string{"p"}, nil)
	for i := 0; i < 5; i++ {
		g.NewNode(nil, nil)
	}
	sym := &PatternSymbol{}
	sym.AddNode(a)
	sym.AddNode(b)
	sym.AddNode(g.NewNode(nil, nil))
	sym.AddNode(g.NewNode(nil, nil))
	pat := Pattern{{Name: "n", Labels: NewStringSet("p")}}
	acc, err := pat.FindPaths(g, map[string]*PatternSymbol{"n": sym})
	if err != nil || len(acc.Paths) != 2 {
		t.Fatalf("%v %v", len(acc.Paths), err)
	}
''', 'a node variable bound to several nodes, and a label that fewer nodes have', 'nodes outside the bound set match the variable')

seed('c16-readd', 'C16', [('sets.go', '''	_, exists := f.m[id]
	if exists {
		return false
	}
	el := f.l.PushBack(item)''', '''	if el, exists := f.m[id]; exists && el == f.l.Back() {
		return false
	}
	el := f.l.PushBack(item)''')], '''
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	s := NewNodeSet()
	s.Add(a)
	s.Add(b)
	s.Add(a)
	if len(s.Slice()) != 2 {
		t.Fatalf("%d members", len(s.Slice()))
	}
''', 'a member is added again after another one was added', 'the member is listed twice')

seed('c17-early-delete', 'C17', [('stringtable.go', '''	table.strs[i].c--
	if table.strs[i].c > 0 {
		return
	}
''', '''	table.strs[i].c--
	if table.strs[i].c > 0 && table.firstFree == -1 {
		return
	}
''')], '''
	var tb stringTable
	tb.init()
	a := tb.allocate("a")
	b := tb.allocate("b")
	tb.allocate("b")
	tb.free(a)
	tb.free(b)
	if i, ok := tb.lookup("b"); !ok || i != b {
		t.Fatalf("b is gone although it was allocated twice and freed once")
	}
''', 'a string allocated twice is freed once while another slot is free', 'a string that is still in use is freed')

seed('c18-self-neighbour', 'C18', [('itr.go', '''		if _, seen := i.seen[node.id]; seen {
			continue
		}
''', '''		if _, seen := i.seen[node.id]; seen || (i.dir == AnyEdge && node == i.node) {
			continue
		}
''')], '''
	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	c := (&Cursor{}).Set(a)
	n := 0
	for x := c.Nodes(AnyEdge); x.Next(); {
		n++
	}
	if n != 1 {
		t.Fatalf("%d neighbours", n)
	}
''', 'a node with a self-loop, navigated in both directions', 'the node is not among its neighbours')

seed('c18-sinks', 'C18', [('alg.go', 'if edges := node.GetEdges(OutgoingEdge); edges.Next() {', 'if edges := node.GetEdges(OutgoingEdge); edges.Next() && edges.Edge().GetTo() != node {')], '''
	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	if len(Sinks(g)) != 0 {
		t.Fatalf("a node with a self-loop is a sink")
	}
''', 'a node whose first outgoing edge is a self-loop', 'the node is reported as a sink')

if __name__ == '__main__':
    seedlib.main(SEEDS)
