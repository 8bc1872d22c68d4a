From ff0d2994f2fd38de2d70336e3609bda383cc1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 01/24] fix: removing the last node of a graph keeps the node
 list intact

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From e033398cc11e3b1ec9c1b7086050ff053c14ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 02/24] fix: relabelling an edge moves it in the list of all
 edges, which is kept by label

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..2e1e449 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From 11235ab28e487984771d95dd5a9185623c2f892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 03/24] fix: removing an edge removes it from the property
 indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 2e1e449..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -532,6 +532,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From 1b58cfa4bc8ff00b0ba50c1417907f4c09738f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 04/24] fix: removing all labels of a node removes it from the
 label map

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 2a6088f..ce06cc5 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From f2805b0e35ce29b90e7c8009394e59ffcdddab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 05/24] fix: the size hint of edges in both directions is
 unknown if one of them is

---
 node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 666e0ec..01e1a92 100644
--- a/node.go
+++ b/node.go
@@ -95,7 +95,11 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	size := -1
+	if i1.MaxSize() != -1 && i2.MaxSize() != -1 {
+		size = i1.MaxSize() + i2.MaxSize()
+	}
+	return edgeIterator{withSize(MultiIterator(i1, i2), size)}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From 7364e8cd94ae1da72485a555c46d03d3d301d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 06/24] fix: FindNodes and FindEdges work without labels, and
 filter when no index applies

---
 graph.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..b498431 100644
--- a/graph.go
+++ b/graph.go
@@ -224,11 +224,12 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 	}
 
 	var nodesByLabelItr NodeIterator
+	nodesByLabelSize := -1
 	if allLabels.Len() > 0 {
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -277,8 +278,15 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 			},
 		}
 	}
-	// Iterate all
-	return g.GetNodes()
+	// Iterate all, with a filter
+	return nodeIterator{
+		&filterIterator{
+			itr: g.GetNodes(),
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -293,11 +301,12 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 	}
 
 	var edgesByLabelItr EdgeIterator
+	edgesByLabelSize := -1
 	if labels.Len() > 0 {
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +355,15 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// Iterate all, with a filter
+	return &edgeIterator{
+		&filterIterator{
+			itr: g.GetEdges(),
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From 96b9d1167f2b9a472c25fe8dfb8baed2a624265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 07/24] fix: neighbours in both directions include the sources
 of incoming edges

---
 cursor.go | 4 ++--
 itr.go    | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index e393582..7517574 100644
--- a/cursor.go
+++ b/cursor.go
@@ -81,7 +81,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -91,7 +91,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index b2c31a7..8dbede2 100644
--- a/itr.go
+++ b/itr.go
@@ -252,13 +252,15 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(node *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -283,7 +285,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From 0e273ec34885df2364299bae96c84f6960f5d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 08/24] fix: an index lookup with an incomparable value finds
 nothing instead of panicking

---
 btreeindex.go | 10 ++++++++--
 hashindex.go  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/btreeindex.go b/btreeindex.go
index ec3ebd8..368a3ae 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -51,8 +51,14 @@ func (s setTree) remove(key interface{}, id int) {
 	}
 }
 
-// find returns the iterator and expected size.
-func (s setTree) find(key interface{}) Iterator {
+// find returns the iterator and expected size. A key that cannot be
+// compared with the keys in the tree is not found.
+func (s setTree) find(key interface{}) (ret Iterator) {
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
 	if s.tree == nil {
 		return emptyIterator{}
 	}
diff --git a/hashindex.go b/hashindex.go
index e4b283c..b5d1439 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -61,8 +61,14 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	ix.elements.Remove(el.(*list.Element))
 }
 
-// find returns the iterator and expected size.
-func (ix *hashIndex) find(value interface{}) Iterator {
+// find returns the iterator and expected size. A value that cannot be
+// hashed is not found.
+func (ix *hashIndex) find(value interface{}) (ret Iterator) {
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-- 
2.43.0


From 5fd22588bd17e63322a8aa4812cbe029e44ed090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 09/24] fix: removing the ends of a path leaves the graph alone
 and keeps the remaining node

---
 path.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/path.go b/path.go
index e613260..ff414cc 100644
--- a/path.go
+++ b/path.go
@@ -297,22 +297,29 @@ func (p *Path) RemoveLast() *Path {
 		p.only = nil
 		return p
 	}
-	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
+	switch len(p.path) {
+	case 0:
+	case 1:
+		return p.SetOnlyNode(p.First())
+	default:
 		p.path = p.path[:len(p.path)-1]
 	}
 	return p
 }
 
-// RemoveFirst removes the first edge from the graph. If the path has
-// only a node, path becomes empty
+// RemoveFirst removes the first edge from the path. If the path has
+// one edge, the path becomes a single node containing the target. If
+// the path has only a node, path becomes empty
 func (p *Path) RemoveFirst() *Path {
 	if p.only != nil {
 		p.only = nil
 		return p
 	}
-	if len(p.path) > 0 {
-		p.path[0].Edge.Remove()
+	switch len(p.path) {
+	case 0:
+	case 1:
+		return p.SetOnlyNode(p.Last())
+	default:
 		p.path = p.path[1:]
 	}
 	return p
-- 
2.43.0


From acaf97ba90b314c520be81e5f126629da6755790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 10/24] fix: Path.Slice can return the last node of a path

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index ff414cc..6c0065e 100644
--- a/path.go
+++ b/path.go
@@ -276,7 +276,7 @@ func (p *Path) Slice(startNodeIndex, endNodeIndex int) *Path {
 	}
 	if startNodeIndex == endNodeIndex {
 		return &Path{
-			only: p.path[startNodeIndex].GetSourceNode(),
+			only: p.GetNode(startNodeIndex),
 		}
 	}
 	if startNodeIndex == p.NumNodes()-1 {
-- 
2.43.0


From f337b60239c669a0bf4b1feb3b07730790771d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 11/24] fix: popping from the path of a cursor moves the cursor
 back

---
 cursor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cursor.go b/cursor.go
index 7517574..75a700b 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if node := c.path.Last(); node != nil {
+		c.node = node
+	}
 	return c
 }
 
-- 
2.43.0


From 36ecd75362335a8a965cf7da37bc0f540d5ca961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 12/24] fix: appending to an empty path checks that the edges
 are connected, and a failed append changes nothing

---
 path.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/path.go b/path.go
index 6c0065e..2247c91 100644
--- a/path.go
+++ b/path.go
@@ -117,26 +117,20 @@ func (p *Path) Append(path ...PathElement) *Path {
 	if len(path) == 0 {
 		return p
 	}
-	if p.NumNodes() == 0 {
-		p.path = make([]PathElement, len(path))
-		copy(p.path, path)
-		return p
-	}
 	last := p.Last()
 	if last != nil && last != path[0].GetSourceNode() {
 		fmt.Println(last.GetLabels(), path[0].GetSourceNode().GetLabels())
 		fmt.Println(p.String())
 		panic("Appended edge is disconnected from path")
 	}
-	if p.only != nil {
-		p.only = nil
-	}
+	last = path[0].GetSourceNode()
 	for _, pe := range path {
 		if pe.GetSourceNode() != last {
 			panic("Appended edges are disconnected")
 		}
 		last = pe.GetTargetNode()
 	}
+	p.only = nil
 	p.path = append(p.path, path...)
 	return p
 }
-- 
2.43.0


From 112f8a64b4c27555622cb1b1d4c5a4ac0b0e2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 13/24] fix: AppendPath keeps single-node paths and leaves its
 argument alone

---
 path.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/path.go b/path.go
index 2247c91..c760713 100644
--- a/path.go
+++ b/path.go
@@ -138,24 +138,14 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
+	if p.NumNodes() == 0 {
+		p.only = path.only
 		p.path = make([]PathElement, len(path.path))
 		copy(p.path, path.path)
 		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
+	}
+	if path.only != nil && path.only != p.Last() {
+		panic("Appended node is disconnected from path")
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 7b37eeec0552dd5aeea7adbdf362f8be65aaa475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 14/24] fix: an isomorphism maps different nodes to different
 nodes and different edges to different edges

---
 alg.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..5810db7 100644
--- a/alg.go
+++ b/alg.go
@@ -133,7 +133,13 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	}
 
 	isIsomorphism := func(nodeMapping map[*Node]*Node) bool {
+		mapped := make(map[*Node]struct{}, len(nodeMapping))
 		for node1, node2 := range nodeMapping {
+			// Different nodes must be mapped to different nodes
+			if _, seen := mapped[node2]; seen {
+				return false
+			}
+			mapped[node2] = struct{}{}
 			// node1 and node2 are equivalent. Now we check if equivalent edges go to equivalent nodes
 			edges1 := EdgeSlice(node1.GetEdges(OutgoingEdge))
 			edges2 := EdgeSlice(node2.GetEdges(OutgoingEdge))
@@ -144,11 +150,13 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if edge2 != nil && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
 						found = true
+						// edge2 is taken
+						edges2[i] = nil
 						break
 					}
 				}
-- 
2.43.0


From 8f9bc0205f3f260641f3d261fba7ccdc8779892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 15/24] fix: encoding an empty graph with separate edges gives
 valid JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From dea676d3d6d6fa626fa46d270632a88c4b2a9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 16/24] fix: a property with an empty name survives decoding

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 8b351d7..144d90c 100644
--- a/json.go
+++ b/json.go
@@ -408,7 +408,7 @@ func (j JSON) unmarshalProperties(input map[string]json.RawMessage) (map[string]
 		if err != nil {
 			return nil, err
 		}
-		if len(k) > 0 {
+		if len(k) > 0 || j.PropertyUnmarshaler == nil {
 			k = j.Interner.Intern(k)
 			ret[k] = v
 		}
-- 
2.43.0


From 63dff09c03bb412a91f5db03e02d339ecf113698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 17/24] fix: decoding skips the values of unknown keys whatever
 their type

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 144d90c..6093ade 100644
--- a/json.go
+++ b/json.go
@@ -526,8 +526,10 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 				depth++
 			case json.Delim('}'), json.Delim(']'):
 				depth--
-			default:
-				depth--
+			}
+			if depth == 1 {
+				// The value of the unknown key is complete
+				depth = 0
 			}
 		}
 	}
-- 
2.43.0


From ccb969b1d56c0516ae094036650025076776aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 18/24] fix: the path of a match contains every edge of the
 backward steps, and no forward edge twice

---
 pattern.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..3e2955c 100644
--- a/pattern.go
+++ b/pattern.go
@@ -549,10 +549,11 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 		}
 	}
 	revPathOut := &Path{}
-	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
+	for i := len(plan.steps) - 1; i > plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			for k := len(path.path) - 1; k >= 0; k-- {
+				revPathOut.Append(PathElement{Edge: path.path[k].Edge, Reverse: !path.path[k].Reverse})
+			}
 		}
 	}
 	return revPathOut.AppendPath(out)
-- 
2.43.0


From afa3b621e11d457885f18e9fcabafb5f2f9329cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 19/24] fix: a variable used twice in a pattern stays bound
 until the step that bound it moves on

---
 pattern.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index 3e2955c..98809a8 100644
--- a/pattern.go
+++ b/pattern.go
@@ -292,10 +292,15 @@ type MatchContext struct {
 	// localSymbols are symbols defined in the pattern.
 	LocalSymbols map[string]*PatternSymbol
 
+	// The steps that recorded the local symbols
+	owners map[string]planProcessor
+
 	variablePathNode *Node
 }
 
-// If the current step has a local symbol, it will be recorded in the context
+// If the current step has a local symbol, it will be recorded in the
+// context. If the symbol is already recorded by a previous step, the
+// step is constrained by it, and the symbol belongs to the previous step
 func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
@@ -304,6 +309,10 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if _, recorded := ctx.owners[name]; recorded {
+		return
+	}
+	ctx.owners[name] = step
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
@@ -318,6 +327,10 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.owners[name] != step {
+		return
+	}
+	delete(ctx.owners, name)
 	delete(ctx.LocalSymbols, name)
 }
 
@@ -623,6 +636,7 @@ func (plan MatchPlan) Run(graph *Graph, symbols map[string]*PatternSymbol, resul
 		Graph:        graph,
 		Symbols:      symbols,
 		LocalSymbols: make(map[string]*PatternSymbol),
+		owners:       make(map[string]planProcessor),
 	}
 
 	res := resultAccumulator{acc: result, plan: plan}
-- 
2.43.0


From cf8aff1d4dfb9946ddc11c31cc5b3070a02a9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 20/24] fix: an undirected pattern step matches a self-loop
 once

---
 planprocessors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..54d0cd5 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -146,7 +146,8 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	node := processor.source.GetResult().(*Node)
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
-			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
+			// A self-loop is both an incoming and an outgoing edge
+			itr: makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels)),
 			filter: func(item interface{}) bool {
 				return processor.edgeFilter(item.(*Edge))
 			},
-- 
2.43.0


From 67b04493fcf2f1851bb4f17a52935891dcd4e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 21/24] fix: edge variables constrain the edges of a pattern

---
 planprocessors.go | 20 +++++++++++++++++---
 sets.go           |  4 ++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 54d0cd5..ed0cde9 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,23 +82,30 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
 		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
 				itr: processor.itr,
 				filter: func(edge interface{}) bool {
-					return filterFunc(edge.(*Edge))
+					return filterFunc(edge.(*Edge)) && (edges == nil || edges.Has(edge.(*Edge)))
 				},
 			},
 		}
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
 		// TODO: find edge dir
@@ -157,8 +164,15 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	if processor.patternItem.Min == 1 && processor.patternItem.Max == 1 {
+		constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
 		for processor.edgeItr.Next() {
 			edge := processor.edgeItr.Edge()
+			if constraints != nil && !constraints.Has(edge) {
+				continue
+			}
 			path := &Path{path: []PathElement{
 				{Edge: edge},
 			}}
diff --git a/sets.go b/sets.go
index 21d2c93..a929148 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) Has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From 6e63daa272a5541b85df98e00b34f628f7f744b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 22/24] fix: a search that starts at an edge tries both
 directions of an undirected step and reports the direction

---
 planprocessors.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index ed0cde9..53215da 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -107,21 +107,29 @@ func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) err
 		return err
 	}
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
-		processor.result = path
-		ctx.recordStepResult(processor)
-		if err := next.Run(ctx); err != nil {
+		edge := processor.itr.Edge()
+		if err := processor.runEdge(ctx, next, edge, processor.patternItem.ToLeft); err != nil {
 			return err
 		}
-		ctx.resetStepResult(processor)
+		if processor.patternItem.Undirected && !processor.patternItem.ToLeft && edge.GetFrom() != edge.GetTo() {
+			if err := processor.runEdge(ctx, next, edge, true); err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
 
+func (processor *iterateEdges) runEdge(ctx *MatchContext, next matchAccumulator, edge *Edge, reverse bool) error {
+	processor.result = &Path{path: []PathElement{{Edge: edge, Reverse: reverse}}}
+	ctx.recordStepResult(processor)
+	if err := next.Run(ctx); err != nil {
+		return err
+	}
+	ctx.resetStepResult(processor)
+	return nil
+}
+
 func (processor *iterateEdges) GetPatternItem() PatternItem { return processor.patternItem }
 func (processor *iterateEdges) GetResult() interface{}      { return processor.result }
 func (processor *iterateEdges) IsEdge()                     {}
@@ -257,6 +265,11 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 		case useFromNode:
 			node = edge.GetFrom()
 		case useAnyNode:
+			if processor.prevOrNextNode == nil {
+				// The search starts at this edge
+				node = edges.Last()
+				break
+			}
 			n := processor.prevOrNextNode.GetResult().(*Node)
 			if edge.GetTo() == n {
 				node = edge.GetFrom()
-- 
2.43.0


From f4e37857509e9aafe74b233836f124c63a772643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 23/24] fix: NewPathFromElements keeps its own copy of the
 elements

---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index c760713..dcd268d 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,9 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	path := make([]PathElement, len(elements))
+	copy(path, elements)
+	return &Path{path: path}
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From 43798a342d93004c3ef637f40affd3808d94e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 24/24] fix: a NodeMap that holds only unlabelled nodes is not
 empty

---
 maps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maps.go b/maps.go
index ce06cc5..1a06f0f 100644
--- a/maps.go
+++ b/maps.go
@@ -112,7 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
+	if nm.m.Size() == 0 && nm.nolabels.size() == 0 {
 		return true
 	}
 	return false
-- 
2.43.0

