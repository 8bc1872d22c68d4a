package lpg

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"
)

// jprops are JSON property values, by code.
func jprops(c int) map[string]any {
	vals := []any{1, "s", "", true, nil, []any{1, "a"}, map[string]any{"x": 1.5}, "q\"\\\n\u2028<>", -7, 1e30, []string{}, map[string]string{"a": "b"}}
	keys := []string{"k", "key two", "", "n", "labels", "edges", "é\""}
	m := map[string]any{}
	for i := 0; i < c%4; i++ {
		m[keys[(c/4+i*3)%len(keys)]] = vals[(c/8+i*5)%len(vals)]
	}
	return m
}

// failWriter accepts some bytes, then fails once.
type failWriter struct {
	left int
	err  error
}

func (w *failWriter) Write(d []byte) (int, error) {
	if w.left >= 0 && w.left < len(d) {
		n := w.left
		w.left = 1 << 40
		return n, w.err
	}
	w.left -= len(d)
	return len(d), nil
}

func TestVerifC14(t *testing.T) {
	h := newHunt("random graphs of at most 5 nodes and 7 edges with removal histories and property values of every JSON kind, encoded with edges nested and separate, with and without a custom property marshaler, decoded with and without a shared interner into empty and non-empty graphs; documents with dangling references, unknown keys and edges before nodes; malformed documents, and writers and property functions that fail; non-trivial: at least one node")
	for i := 0; i < h.n(12000) && !h.over(); i++ {
		d := h.smallGraph(5, 7, false, true)
		code := h.rnd.Intn(4096)
		sep, custom, shared := h.rnd.Intn(2) == 0, h.rnd.Intn(3) == 0, h.rnd.Intn(3) == 0
		h.check(fmt.Sprintf("%s with properties %d, separate=%v, marshaler=%v, interner=%v", d, code, sep, custom, shared), len(d.ns) > 0, func() {
			g := NewGraph()
			ns, es := d.build(g)
			ns, es = liveN(ns), liveE(es)
			for i, n := range ns {
				for k, v := range jprops(code + i*37) {
					n.SetProperty(k, v)
				}
			}
			for i, e := range es {
				for k, v := range jprops(code + i*53 + 11) {
					e.SetProperty(k, v)
				}
			}
			j := JSON{MarshalEdgesSeparately: sep}
			if custom && code%2 == 0 {
				// the keys as they are, without "n", and without "labels" when it comes back
				j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
					if k == "n" {
						return "", nil, nil
					}
					d, err := json.Marshal(v)
					return k, d, err
				}
				j.PropertyUnmarshaler = func(k string, d json.RawMessage) (string, any, error) {
					if k == "labels" {
						return "", nil, nil
					}
					var v any
					err := json.Unmarshal(d, &v)
					return k, v, err
				}
			} else if custom {
				j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
					if k == "n" {
						return "", nil, nil
					}
					d, err := json.Marshal([]any{v})
					return "_" + k, d, err
				}
				j.PropertyUnmarshaler = func(k string, d json.RawMessage) (string, any, error) {
					var v []any
					if err := json.Unmarshal(d, &v); err != nil {
						return "", nil, err
					}
					return k[1:], v[0], nil
				}
			}
			if shared {
				j.Interner = MapInterner{"k": "k", "A": "A"}
			}
			props := func(m map[string]any, original bool) string {
				r := cpProps(m)
				if custom && original {
					delete(r, "n")
					if code%2 == 0 {
						delete(r, "labels")
					}
					delete(r, "")
				}
				return vjson(r)
			}
			before := snapshot(g)
			var b bytes.Buffer
			vmust(j.Encode(g, &b) == nil, "encode-error", "Encode fails")
			s := snapshot(g)
			vmust(s == before, "graph-changed", "Encode changes the graph: %s", snapDiff(before, s))
			vmust(json.Valid(b.Bytes()), "invalid-json", "the result is no valid JSON: %s", b.String())
			var doc struct {
				Nodes []jsonNode
				Edges []jsonEdge
			}
			vmust(json.Unmarshal(b.Bytes(), &doc) == nil, "invalid-json", "the result has another shape: %s", b.String())
			vmust(len(doc.Nodes) == len(ns), "nodes", "%d nodes are listed, want %d", len(doc.Nodes), len(ns))
			seen := map[int]bool{}
			ne := len(doc.Edges)
			for _, n := range doc.Nodes {
				vmust(!seen[n.N], "nodes", "two nodes have index %d", n.N)
				seen[n.N] = true
				vmust(!sep || len(n.Edges) == 0, "edges", "edges are nested")
				ne += len(n.Edges)
			}
			vmust(sep || len(doc.Edges) == 0, "edges", "edges are separate")
			vmust(ne == len(es), "edges", "%d edges are listed, want %d", ne, len(es))
			failing := errors.New("failing")
			isFailing := func(what string, err error) {
				vmust(err != nil, "error-lost", "%s, but no error is reported", what)
			}
			for _, k := range []int{0, 1, code % b.Len(), (code*7 + 3) % b.Len(), b.Len() - 1} {
				// the nodes come in any order, so another run fails at another place
				isFailing(fmt.Sprintf("the writer fails after %d of %d bytes", k, b.Len()), j.Encode(g, &failWriter{left: k, err: failing}))
			}
			trunc := b.Bytes()[:(code*5+1)%b.Len()]
			isFailing("the document ends early: "+string(trunc), j.Decode(NewGraph(), json.NewDecoder(bytes.NewReader(trunc))))
			if has := len(doc.Nodes) > 0; has {
				hasProps := false
				for _, n := range ns {
					hasProps = hasProps || len(n.properties) > 0
				}
				for _, e := range es {
					hasProps = hasProps || len(e.properties) > 0
				}
				if hasProps {
					nth := 0
					f := j
					f.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
						if nth++; nth > code%2 {
							return "", nil, failing
						}
						return k, json.RawMessage("1"), nil
					}
					err := f.Encode(g, &bytes.Buffer{})
					vmust(nth <= code%2 || err != nil, "error-lost", "the marshaler of properties fails, but Encode reports no error")
				}
				nth := 0
				f := j
				f.PropertyUnmarshaler = func(k string, d json.RawMessage) (string, any, error) {
					if nth++; nth > code%2 {
						return "", nil, failing
					}
					return k, 1, nil
				}
				err := f.Decode(NewGraph(), json.NewDecoder(bytes.NewReader(b.Bytes())))
				vmust(nth <= code%2 || err != nil, "error-lost", "the unmarshaler of properties fails, but Decode reports no error")
			}
			g2 := NewGraph()
			var old map[*Node]bool
			if code%3 == 0 {
				old = map[*Node]bool{g2.NewNode([]string{"A"}, nil): true}
			}
			err := j.Decode(g2, json.NewDecoder(bytes.NewReader(b.Bytes())))
			vmust(err == nil, "decode-error", "Decode fails: %v", err)
			var n2 []*Node
			for _, n := range NodeSlice(g2.GetNodes()) {
				if !old[n] {
					n2 = append(n2, n)
				}
			}
			ok := isoBy(ns, n2, es, EdgeSlice(g2.GetEdges()), func(n *Node) string { return vlabels(n.labels) + props(n.properties, n.graph == g) }, func(e *Edge) string { return e.label + props(e.properties, e.from.graph == g) })
			vmust(ok, "round-trip", "the decoded graph differs from the original: %s", b.String())
		})
	}
	for i := 0; i < h.n(12000) && !h.over(); i++ {
		d := h.smallGraph(4, 5, false, false)
		dangling := h.rnd.Intn(2) == 0
		var edges []string
		nested := map[int][]string{}
		bad := false
		ids := h.rnd.Perm(9)
		for k, e := range d.es {
			f, to := ids[e.f], ids[e.t]
			nest := h.rnd.Intn(2) == 0
			if dangling && h.rnd.Intn(3) == 0 {
				bad = true
				if nest || h.rnd.Intn(2) == 0 {
					to = 10 + h.rnd.Intn(3)
				} else {
					f = -1 - h.rnd.Intn(3)
				}
			}
			if nest {
				nested[e.f] = append(nested[e.f], fmt.Sprintf(`{"to":%d,"label":"%s","properties":{"k":%d}}`, to, vEdgeLabels[e.label], k))
			} else {
				edges = append(edges, fmt.Sprintf(`{"from":%d,"to":%d,"label":"%s","properties":{"k":%d}}`, f, to, vEdgeLabels[e.label], k))
			}
		}
		var nodes []string
		for k := range d.ns {
			s := fmt.Sprintf(`{"n":%d,"labels":["N%d"]`, ids[k], k)
			if l := nested[k]; len(l) > 0 {
				s += `,"edges":[` + strings.Join(l, ",") + `]`
			}
			nodes = append(nodes, s+"}")
		}
		h.rnd.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		parts := []string{`"nodes":[` + strings.Join(nodes, ",") + `]`, `"edges":[` + strings.Join(edges, ",") + `]`}
		if h.rnd.Intn(3) == 0 {
			parts = append(parts, `"x`+strconv.Itoa(i)+`":`+[]string{"1", `"nodes"`, `{"nodes":[1],"edges":{"a":"b"}}`, `[[],{"a":[1]},"edges"]`, "null", "{}"}[h.rnd.Intn(6)])
		}
		h.rnd.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		doc := "{" + strings.Join(parts, ",") + "}"
		h.check(doc, len(d.es) > 0, func() {
			g := NewGraph()
			err := JSON{}.Decode(g, json.NewDecoder(strings.NewReader(doc)))
			if bad {
				var x ErrInvalidGraph
				vmust(err != nil, "dangling", "an edge refers to an undeclared node, but Decode succeeds")
				vmust(errors.As(err, &x), "dangling", "the error is %v", err)
				return
			}
			vmust(err == nil, "decode-error", "Decode fails: %v", err)
			vmust(g.NumNodes() == len(d.ns) && g.NumEdges() == len(d.es), "decode", "the graph has %d nodes and %d edges", g.NumNodes(), g.NumEdges())
			for it := g.GetEdges(); it.Next(); {
				e := it.Edge()
				v, ok := e.GetProperty("k")
				vmust(ok, "decode", "an edge has no property")
				w := d.es[int(v.(float64))]
				vmust(e.label == vEdgeLabels[w.label] && e.from.labels.Has(fmt.Sprint("N", w.f)) && e.to.labels.Has(fmt.Sprint("N", w.t)), "decode", "edge %v has other ends or another label", v)
			}
		})
	}
	for _, doc := range []string{"", " ", "null", "1", "[]", "[{}]", `"nodes"`, "{", `{"nodes"`, `{"nodes":`, `{"nodes":1}`, `{"nodes":{}}`, `{"nodes":[1]}`, `{"nodes":[{"n":"x"}]}`, `{"nodes":[{"n":0,"labels":"A"}]}`,
		`{"nodes":[{"n":0}`, `{"nodes":[{"n":0}]`, `{"nodes":[{"n":0}],}`, `{"edges":1}`, `{"edges":{}}`, `{"edges":[1]}`, `{"edges":[{"from":"a"}]}`, `{"edges":[{"from":0,"to":0}]}`, `{"edges":[]`,
		`{"nodes":[{"n":0,"edges":[{"to":"0"}]}]}`, `{"nodes":[{"n":0,"edges":[{"to":1}]}]}`, `{"nodes":[{"n":0,"properties":[]}]}`, `{"nodes":[{"n":0,"properties":{"a":}}]}`, `{"x":`, `{"x":[`, `{"x":[1]`, `{"x":{"nodes":[]}`} {
		h.check("the malformed document "+doc, true, func() {
			vmust(JSON{}.Decode(NewGraph(), json.NewDecoder(strings.NewReader(doc))) != nil, "malformed", "the document is malformed or refers to undeclared nodes, but Decode succeeds")
		})
	}
	for doc, want := range map[string][2]int{`{}`: {0, 0}, `{"nodes":[],"edges":[]}`: {0, 0}, `{"nodes":null,"edges":null}`: {0, 0}, `{"edges":[{"from":7,"to":7,"label":"x"}],"nodes":[{"n":7}]}`: {1, 1}, `{"nodes":[{"n":1,"edges":[{"to":1},{"to":2}]},{"n":2,"edges":[{"to":1}]}]}`: {2, 3}} {
		h.check("the document "+doc, true, func() {
			g := NewGraph()
			err := JSON{}.Decode(g, json.NewDecoder(strings.NewReader(doc)))
			vmust(err == nil, "decode-error", "Decode fails: %v", err)
			vmust(g.NumNodes() == want[0] && g.NumEdges() == want[1], "decode", "the graph has %d nodes and %d edges", g.NumNodes(), g.NumEdges())
		})
	}
	vdone(t, h)
}
