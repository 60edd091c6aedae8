package main

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// applied checks one application against the reference; it returns the result.
func applied(c *Ctx, doc *N, t tson.Tson, ops []Op, single bool) (*N, tson.Tson) {
	c.Step()
	want, v := refPatch(doc, ops)
	var got tson.Tson
	var err error
	if single {
		got, err = tsonpatch.ApplyOperation(t, ops[0])
	} else {
		got, err = tsonpatch.ApplyPatch(t, tsonpatch.Patch(ops))
	}
	if !sameDoc(t, doc) {
		c.Failf("applying %s modifies the document\n  %s to\n  %s", opsStr(ops), head(doc.String(), 700), head(fromT(t).String(), 700))
	}
	switch {
	case v == vGray:
		return nil, nil
	case v == vErr && err == nil:
		c.Failf("applying %s to %s is impossible but gives %s", opsStr(ops), head(doc.String(), 700), head(fromT(got).String(), 700))
	case v == vErr && got != nil:
		c.Failf("applying %s to %s fails with %v but gives the document %s", opsStr(ops), head(doc.String(), 700), err, head(fromT(got).String(), 700))
	case v == vOK && err != nil:
		c.Failf("applying %s to %s fails: %v", opsStr(ops), head(doc.String(), 700), err)
	case v == vOK && !sameDoc(got, want):
		c.Failf("applying %s to\n  %s gives\n  %s, not\n  %s", opsStr(ops), head(doc.String(), 700), head(fromT(got).String(), 700), head(want.String(), 700))
	}
	return want, got
}

// docPaths are paths of every element of the document and around it.
func docPaths(doc *N) []string {
	out := []string{""}
	var walk func(n *N, parts []string)
	walk = func(n *N, parts []string) {
		p := pointer(parts)
		sub := func(k string, m *N) {
			out = append(out, p+pointer([]string{k}))
			walk(m, append(append([]string{}, parts...), k))
		}
		for _, k := range n.keys() {
			sub(k, n.o[k])
		}
		for i := range n.a {
			if len(n.a) < 30 || i < 6 || i > len(n.a)-3 {
				sub(fmt.Sprint(i), n.a[i])
			}
		}
		switch n.k {
		case 'o':
			out = append(out, p+"/new", p+"/new/0", p+"/new/x/y", p+"/new/1/x", p+"/", p+"/7")
		case 'a':
			out = append(out, fmt.Sprintf("%s/%d", p, len(n.a)), fmt.Sprintf("%s/%d", p, len(n.a)+2), fmt.Sprintf("%s/%d/k", p, len(n.a)), fmt.Sprintf("%s/%d/0/0", p, len(n.a)+1), p+"/-", p+"/x", p+"/-1", p+"/x/y")
		default:
			out = append(out, p+"/x", p+"/0", p+"/x/y")
		}
	}
	walk(doc, nil)
	return out
}

var opKinds = []string{"add", "replace", "remove", "move", "copy", "test", "", "ADD", "unset"}
var opValues = []any{"", "s", 0.0, 1.5, 0, 7, -3, true, false, nil, map[string]any{}, map[string]any{"a": 1.0}, []any{}, []any{1.0}, 1e300, "é\n", map[string]any{"value": 1.0, "timestamp": 2.0}}

// richDocs have every kind of element.
func richDocs() []*N {
	return append(lookupDocs()[:4], inContext(5, num(1.5, 7)), inContext(6, str("s", -1)), inContext(7, boo(true, 3)), inContext(8, num(4, 4)),
		obj("a", arr(num(1, 1), num(2, 2), num(3, 3)), "b", arr(obj("x", num(1, 1)), obj("x", num(2, 2))), "c", arr(arr(num(1, 1)), arr(num(2, 2), num(3, 3)))))
}

// expressible: every difference is a leaf that is set or something removed,
// so a patch has to be generated. Others may be refused.
func expressible(a, b *N) bool {
	switch {
	case b.leaf():
		return true
	case a == nil || a.k != b.k:
		return false
	case b.k == 'o':
		for k, v := range b.o {
			if !expressible(a.o[k], v) {
				return false
			}
		}
	case b.k == 'a':
		for i, v := range b.a {
			var old *N
			if i < len(a.a) {
				old = a.a[i]
			}
			if !expressible(old, v) {
				return false
			}
		}
	}
	return true
}

// merge is b with the timestamps of a where the value is the same.
func merge(a, b *N) *N {
	if a == nil || a.k != b.k {
		return b
	}
	switch b.k {
	case 'o':
		n := obj()
		for k, v := range b.o {
			n.o[k] = merge(a.o[k], v)
		}
		return n
	case 'a':
		n := arr()
		for i, v := range b.a {
			var old *N
			if i < len(a.a) {
				old = a.a[i]
			}
			n.a = append(n.a, merge(old, v))
		}
		return n
	case 'z':
		return b
	}
	if eqn(a, b, false) {
		return a
	}
	return b
}

// generated checks both generators on a pair of documents.
func generated(c *Ctx, a, b *N, timestamps bool) {
	x, y := a.toT(), b.toT()
	c.Step()
	gen, name := tsonpatch.GeneratePatch, "GeneratePatch"
	if timestamps {
		gen, name = tsonpatch.GeneratePatchWithTimestamp, "GeneratePatchWithTimestamp"
	}
	p, err := gen(x, y)
	pair := func() string { return fmt.Sprintf("\n  %s\n  %s", head(a.String(), 800), head(b.String(), 800)) }
	if !sameDoc(x, a) || !sameDoc(y, b) {
		c.Failf("%s modifies a document of%s", name, pair())
	}
	if err != nil {
		if expressible(a, b) {
			c.Failf("%s of%s\nfails: %v", name, pair(), err)
		}
		return
	}
	want := b
	if !timestamps {
		want = merge(a, b)
	}
	seen := map[string]bool{}
	for _, op := range p {
		parts := splitPath(op.Path)
		ptr := pointer(parts)
		if seen[ptr] {
			c.Failf("%s of%s\nhas two changes of %q: %s", name, pair(), ptr, opsStr(p))
		}
		seen[ptr] = true
		va, oka, _ := a.get(parts)
		vb, okb, _ := b.get(parts)
		if oka && okb && va.leaf() && eqn(va, vb, timestamps) {
			c.Failf("%s of%s\nhas a change of %q, which is the same in both: %s", name, pair(), ptr, opsStr(p))
		}
		if okb && op.Op != "remove" && vb.leaf() {
			if l, v := leafOf(op.Value, op.Timestamp); v != vOK || !eq(l, vb) {
				c.Failf("%s of%s\nhas a change of %q to another value or time than the second's: %s", name, pair(), ptr, opsStr(p))
			}
		}
		if timestamps && op.Op != "remove" && !(okb && vb.leaf()) {
			c.Failf("%s of%s\nsets %q, which the second does not have: %s", name, pair(), ptr, opsStr(p))
		}
	}
	if n, v := refPatch(a, p); v != vOK || !eq(n, want) {
		c.Failf("%s of%s\nis %s\nwhich gives (%v)\n  %v, not\n  %s", name, pair(), opsStr(p), v, n, head(want.String(), 800))
	}
	got, err := tsonpatch.ApplyPatch(x, p)
	if err != nil || !sameDoc(got, want) {
		c.Failf("%s of%s\nis %s\nand applying it gives %v\n  %s, not\n  %s", name, pair(), opsStr(p), err, head(fromT(got).String(), 800), head(want.String(), 800))
	}
	if (len(p) == 0) != eqn(a, b, timestamps) {
		c.Failf("%s of%s\nis %s", name, pair(), opsStr(p))
	}
	if !sameDoc(x, a) || !sameDoc(y, b) {
		c.Failf("applying the patch of %s modifies a document of%s", name, pair())
	}
}

func generateFamilies(tier string, timestamps bool) []Family {
	deeper := 0
	if tier == "thorough" {
		deeper = 1
	}
	fams := []Family{
		{Name: "leaf-pairs", Body: func(c *Ctx) {
			ls := allLeaves(true)
			a, b := ls[c.Choose(len(ls))], ls[c.Choose(len(ls))]
			c.Log("pair %v %v", a, b)
			for _, i := range []int{0, 2, 4, 5} {
				generated(c, inContext(i, a), inContext(i, b), timestamps)
			}
		}},
		{Name: "keys", Orders: 2, Body: func(c *Ctx) {
			k, l := keyAlphabet[c.Choose(len(keyAlphabet))], keyAlphabet[c.Choose(len(keyAlphabet))]
			a := obj(k, num(1, 1), "o", obj(k, str("x", 2), l, num(3, 3)), "l", arr(obj(k, num(4, 4))))
			b := obj(l, num(1, 1), "o", obj(k, str("y", 3), l, num(3, 5)), "l", arr(obj(l, num(4, 5), k, boo(true, 1))))
			c.Log("pair %v %v", a, b)
			generated(c, a, b, timestamps)
		}},
		{Name: "mutants", Depth: 4 + deeper, Orders: 2, Extra: 1, Body: func(c *Ctx) {
			a := c.doc(&alphaSmall, c.Depth)
			c.Log("mutants of %v", a)
			for _, m := range mutants(a) {
				generated(c, a, m, timestamps)
				generated(c, m, a, timestamps)
			}
		}},
		{Name: "edits", Depth: 2, Extra: 1 + deeper, Orders: 2, Body: func(c *Ctx) { // several changes of a rich document
			docs := richDocs()
			if c.Depth > 1 {
				docs = []*N{obj("a", num(1, 1), "l", arr(num(1, 1), arr(num(2, 2)), obj("x", str("s", 3))), "o", obj("k", boo(true, 4)))}
			}
			a := docs[c.Choose(len(docs))]
			b := a
			for i := 0; i < c.Depth; i++ {
				ps := docPaths(b)
				p := ps[c.Choose(len(ps))]
				var op Op
				kinds := 4
				if i > 0 {
					kinds = 2
				}
				switch c.Choose(kinds) {
				case 0:
					op = rem(p, 50)
				case 1:
					op = rpl(p, "new", 51)
				case 2:
					op = rpl(p, 1.0, 1)
				case 3:
					op = rpl(p, true, int64(52+i))
				}
				n, v := memoOp(b, op)
				if v != vOK {
					c.Prune()
				}
				b = n
			}
			c.Log("pair %v %v", a, b)
			generated(c, a, b, timestamps)
			generated(c, b, a, timestamps)
		}},
		{Name: "array-lengths", Limit: 1 << 40, Weight: 2, Body: func(c *Ctx) { // every length against near and far ones
			sizes := append([]int{0}, scaleSizes...)
			n := sizes[c.Choose(len(sizes))]
			ms := []int{0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n}
			m := ms[c.Choose(len(ms))]
			if m < 0 {
				c.Prune()
			}
			kind := c.Choose(4)
			mk := func(size, salt int) *N {
				l := arr()
				for i := 0; i < size; i++ {
					switch kind {
					case 0: // the rest is the same
						l.a = append(l.a, num(float64(i), int64(i)))
					case 1: // all moved by one
						l.a = append(l.a, num(float64(i+salt), int64(i+salt)))
					case 2: // every third differs in time, every fourth in value
						l.a = append(l.a, num(float64(i+salt*(i%4/3)), int64(i+salt*(i%3/2))))
					case 3:
						l.a = append(l.a, obj("x", num(float64(i+salt*(i%5/4)), int64(i))))
					}
				}
				return obj("l", l, "r", arr(l, l))
			}
			if kind == 3 && m > n {
				m = n
			}
			c.Log("arrays of %d and %d elements, kind %d", n, m, kind)
			generated(c, mk(n, 0), mk(m, 1), timestamps)
		}},
		{Name: "odd-one", Limit: 1 << 40, Body: func(c *Ctx) {
			a, b := c.oddOne(oddOnes)
			generated(c, a, b, timestamps)
			generated(c, b, a, timestamps)
		}},
		{Name: "scale", Limit: 1 << 40, Orders: 2, Weight: 2, Body: func(c *Ctx) {
			shape, n := c.size(docShapes, func(int) int { return 513 })
			if (shape == 2 || shape == 3) && n > 130 || n > 257 && n < 511 {
				c.Prune()
			}
			a := scaleDoc(shape, n)
			ms := mutants(a)
			var pick []int
			for _, i := range []int{0, 1, len(ms) / 3, len(ms) / 2, len(ms) - 2, len(ms) - 1} {
				if i >= 0 && i < len(ms) && (n <= 257 || i > 1) {
					pick = append(pick, i)
				}
			}
			m := ms[pick[c.Choose(len(pick))]]
			c.Log("document of shape %d and size %d", shape, n)
			generated(c, a, m, timestamps)
			generated(c, a, scaleDoc(shape, n-1), timestamps)
		}},
	}
	for _, o := range []struct {
		name     string
		dev, max int
		depth    int
	}{{"pairs", 0, 0, 3}, {"orders", 2, 3, 3}} {
		f := Family{Name: o.name, Depth: o.depth + deeper, Extra: 1, OrderDev: o.dev, OrderMax: o.max}
		if o.dev == 0 {
			f.Orders = 2
		}
		al := alphaPair
		if o.dev > 0 {
			al = alphabet{leaves: []*N{num(1, 1), str("s", 2)}, keys: []string{"a", "b", "c"}, width: 3}
		}
		f.Body = func(c *Ctx) {
			a, b := c.doc(&al, c.Depth), c.doc(&al, c.Depth)
			c.Log("pair %v %v", a, b)
			if c.Depth == o.depth {
				c.State(a.String() + b.String())
			}
			generated(c, a, b, timestamps)
		}
		fams = append(fams, f)
	}
	return fams
}

func init() {
	assume := []string{
		"values are strings, numbers, booleans; other Go number types than int and float64, array indices spelled with signs or leading zeros, and paths below a document that is null are not judged",
		"documents, paths and values come from the alphabets in mc/gen.go and mc/p_patch.go up to the stated number of nodes, operations or size",
	}
	register(&Prop{ID: "C17", Assumptions: assume, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		docs := richDocs()
		return []Family{
			{Name: "operations", Depth: 4 + deeper, Extra: 1, Orders: 2, Body: func(c *Ctx) {
				doc := c.doc(&alphaTiny, c.Depth)
				t := doc.toT()
				ps := docPaths(doc)
				p := ps[c.Choose(len(ps))]
				c.Log("document %v path %q", doc, p)
				c.State(doc.String() + p)
				for _, k := range []string{"add", "replace", "remove", "test"} {
					for _, v := range []any{"s", 2.0, true, nil} {
						applied(c, doc, t, []Op{{Op: tsonpatch.OpType(k), Path: p, Value: v, Timestamp: 9}}, true)
					}
				}
			}},
			{Name: "values", Body: func(c *Ctx) {
				doc := docs[c.Choose(len(docs))]
				t := doc.toT()
				ps := docPaths(doc)
				p := ps[c.Choose(len(ps))]
				c.Log("document %v path %q", doc, p)
				for _, k := range opKinds {
					for _, v := range opValues {
						for _, ts := range []int64{5, 0, -1, math.MaxInt64, math.MinInt64} {
							op := Op{Op: tsonpatch.OpType(k), Path: p, Value: v, Timestamp: ts}
							applied(c, doc, t, []Op{op}, true)
							applied(c, doc, t, []Op{op}, false)
						}
					}
				}
			}},
			{Name: "all-values", Body: func(c *Ctx) {
				doc := obj("a", num(1, 1), "l", arr(num(1, 1)))
				t := doc.toT()
				p := []string{"/a", "/l/0", "/l/1", "/b", "/o/k", ""}[c.Choose(6)]
				for _, l := range allLeaves(true) {
					if l.leaf() {
						applied(c, doc, t, []Op{rpl(p, l.toJ(), l.ts)}, true)
					}
				}
			}},
			{Name: "key-paths", Body: func(c *Ctx) {
				k, l := keyAlphabet[c.Choose(len(keyAlphabet))], keyAlphabet[c.Choose(len(keyAlphabet))]
				doc := obj(k, obj(l, num(1, 1), k, num(2, 2)), l, arr(num(2, 2), obj(k, boo(true, 3))), k+"/"+l, null)
				t := doc.toT()
				c.Log("document %v", doc)
				for _, parts := range [][]string{{k}, {l}, {k, l}, {l, "1", k}, {k + "/" + l}, {k + l, k}, {k, k + "~" + l}} {
					ptr := pointer(parts)
					var es []string
					for _, p := range parts {
						es = append(es, strings.TrimPrefix(pointer([]string{p}), "/"))
					}
					for _, p := range []string{ptr, strings.Join(es, "."), strings.Join(parts, "/")} {
						applied(c, doc, t, []Op{rpl(p, "n", 9)}, true)
						applied(c, doc, t, []Op{rem(p, 9)}, true)
					}
				}
			}},
			{Name: "path-strings", Depth: 6 + deeper, Body: func(c *Ctx) {
				const al = "/.~01ab-"
				doc := docs[c.Choose(3)]
				path := ""
				for len(path) < c.Depth-1 {
					k := c.Choose(len(al) + 1)
					if k == 0 {
						break
					}
					path += al[k-1 : k]
				}
				t := doc.toT()
				for i := -1; i < len(al); i++ {
					p := path
					if i >= 0 {
						if len(path) < c.Depth-1 {
							break
						}
						p += al[i : i+1]
					}
					applied(c, doc, t, []Op{add(p, 1.0, 9)}, true)
					applied(c, doc, t, []Op{rem(p, 9)}, true)
				}
			}},
			{Name: "sequences", Depth: 3, Extra: 1, Orders: 2, Body: func(c *Ctx) { // earlier results have to stay as they were
				doc := docs[c.Choose(len(docs))]
				t := doc.toT()
				type kept struct {
					n *N
					t tson.Tson
				}
				all := []kept{{doc, t}}
				n, cur := doc, t
				var ops []Op
				for i := 0; i < c.Depth-1; i++ {
					ps := docPaths(n)
					p := ps[c.Choose(len(ps))]
					op := []Op{rpl(p, "new", int64(50+i)), rem(p, int64(50+i))}[c.Choose(2)]
					ops = append(ops, op)
					c.Log("%s", lop(op))
					n, cur = applied(c, n, cur, []Op{op}, i%2 == 0)
					if n == nil {
						applied(c, doc, t, ops, false)
						return
					}
					all = append(all, kept{n, cur})
				}
				applied(c, doc, t, ops, false)
				for i, k := range all {
					if !sameDoc(k.t, k.n) {
						c.Failf("the document before change %d of %s was modified by a later change: %v, not %v", i+1, opsStr(ops), fromT(k.t), k.n)
					}
				}
			}},
			{Name: "scale", Limit: 1 << 40, Weight: 2, Body: func(c *Ctx) {
				shape, n := c.size(docShapes, docMost)
				doc := scaleDoc(shape, n)
				t := doc.toT()
				ps := docPaths(doc)
				c.Log("document of shape %d and size %d", shape, n)
				for i := 0; i < len(ps); i += 1 + len(ps)/60 {
					for _, op := range []Op{rpl(ps[i], "n", 9), rem(ps[i], 9)} {
						applied(c, doc, t, []Op{op}, true)
					}
				}
			}},
			{Name: "long-patches", Limit: 1 << 40, Weight: 2, Body: func(c *Ctx) {
				shape, n := c.size(scaleShapes, nil)
				w := scaleWorld()
				var ops []Op
				for i := 1; i <= n; i++ {
					ops = append(ops, scaleOps(shape, n, i)...)
				}
				c.Log("patch of shape %d with %d steps", shape, n)
				applied(c, w.doc, w.doc.toT(), ops, false)
				k := c.Choose(3) // and with an operation that fails
				at := []int{0, len(ops) / 2, len(ops)}[k]
				bad := append(append(append([]Op{}, ops[:at]...), rem("/missing/x", 1)), ops[at:]...)
				applied(c, w.doc, w.doc.toT(), bad, false)
			}},
			hugeFamily("apply"),
			{Name: "indices", Body: func(c *Ctx) { // padding
				doc := []*N{arr(), arr(num(1, 1)), obj("l", arr(num(1, 1), null)), obj()}[c.Choose(4)]
				i := append([]int{0}, scaleSizes...)[c.Choose(len(scaleSizes)+1)]
				for _, p := range []string{"/%d", "/l/%d", "/%d/k", "/l/%d/%d", "/n/%d"} {
					if strings.Count(p, "%d") == 2 {
						p = fmt.Sprintf(p, i, i)
					} else {
						p = fmt.Sprintf(p, i)
					}
					applied(c, doc, doc.toT(), []Op{add(p, true, 5)}, true)
					applied(c, doc, doc.toT(), []Op{rem(p, 5)}, true)
				}
			}},
		}
	}})

	register(&Prop{ID: "C18", Assumptions: assume, Families: func(tier string) []Family { return generateFamilies(tier, false) }})
	register(&Prop{ID: "C19", Assumptions: assume, Families: func(tier string) []Family { return generateFamilies(tier, true) }})

	register(&Prop{ID: "C20", Assumptions: []string{
		"strings and paths are valid UTF-8, numbers are finite, operation names are those defined",
		"patches come from the alphabets in mc/gen.go and mc/p_patch.go up to the stated number of operations",
	}, Families: func(tier string) []Family {
		doc := obj("a", num(1, 1), "l", arr(num(1, 1), num(2, 2)), "o", obj("k", str("x", 1)))
		return []Family{
			{Name: "values", Body: func(c *Ctx) {
				vals := append([]any{}, opValues...)
				for _, s := range strAlphabet {
					vals = append(vals, s)
				}
				for _, f := range numAlphabet {
					vals = append(vals, f)
				}
				vals = append(vals, map[string]any{"k\"": []any{nil, "é", map[string]any{}}}, []any{map[string]any{"x": 1.0}, nil})
				v := vals[c.Choose(len(vals))]
				for _, k := range opKinds[:6] {
					for _, ts := range []int64{5, 0, -1, math.MaxInt64} {
						op := Op{Op: tsonpatch.OpType(k), Path: "/a", Value: v, Timestamp: ts}
						c.Log("operation %s", lop(op))
						written(c, doc, []Op{op})
					}
				}
			}},
			{Name: "times", Body: func(c *Ctx) {
				ts := append([]int64{math.MinInt64, math.MinInt64 + 1, -1000, -2}, tsAlphabet...)
				op := []Op{add("/a", 1.0, 0), rem("/a", 0), rpl("/l/0", "x", 0)}[c.Choose(3)]
				op.Timestamp = ts[c.Choose(len(ts))]
				written(c, doc, []Op{op})
				written(c, doc, []Op{op, rpl("/o/k", 2, op.Timestamp)})
			}},
			{Name: "paths", Body: func(c *Ctx) {
				k, l := keyAlphabet[c.Choose(len(keyAlphabet))], keyAlphabet[c.Choose(len(keyAlphabet))]
				p := []string{pointer([]string{k, l}), k + "." + l, pointer([]string{k}), l}[c.Choose(4)]
				c.Log("path %q", p)
				written(c, doc, []Op{add(p, "v", 3), rem(p, 4)})
			}},
			{Name: "texts", Body: func(c *Ctx) { // in layouts the writers do not use
				op := []Op{add("/n", "v\"\n", 3), rem("/a", 4), rpl("/l/1", -2.5e-7, 5), rpl("/o/k", nil, 6), add("/é~1", false, -1), rpl("l.0", 123456789.0, 1<<60+1), add("", "", math.MaxInt64)}[c.Choose(7)]
				perm := c.Choose(24)
				names := []string{"op", "path", "value", "timestamp"}
				var order []string
				for i := 4; i > 0; i-- {
					order = append(order, names[perm%i])
					names = slices.Delete(names, perm%i, perm%i+1)
					perm /= i
				}
				gap := []string{"", " ", "\r\n\t"}[c.Choose(3)]
				form := c.Choose(4)
				var parts []string
				for _, k := range order {
					b, _ := json.Marshal(map[string]any{"op": op.Op, "path": op.Path, "value": op.Value, "timestamp": op.Timestamp}[k])
					v := string(b)
					switch f, isNum := op.Value.(float64); {
					case k == "value" && isNum && form == 1:
						v = strconv.FormatFloat(f, 'E', -1, 64)
					case k == "value" && isNum && form == 2:
						v = strconv.FormatFloat(f, 'f', 12, 64)
					case k != "timestamp" && v[0] == '"' && form == 3: // escaped where it need not be
						var s string
						json.Unmarshal(b, &s)
						v = `"`
						for _, r := range s {
							v += fmt.Sprintf("\\u%04x", r)
						}
						v += `"`
					case k == "value" && op.Value == nil && form == 1:
						continue // left out
					}
					parts = append(parts, gap+`"`+k+`"`+gap+":"+gap+v+gap)
				}
				one := "{" + strings.Join(parts, ",") + "}"
				read := func(text string, want []Op, ok bool) {
					c.Step()
					in := []byte(text)
					q, err := tsonpatch.Unmarshal(in)
					if ok && (err != nil || !sameOps(q, want)) {
						c.Failf("Unmarshal of %s gives %v %s, not %s", text, err, opsStr(q), opsStr(want))
					}
					if !ok && err == nil {
						c.Failf("Unmarshal accepts %s as %s", text, opsStr(q))
					}
					if string(in) != text {
						c.Failf("Unmarshal modifies the text %s", text)
					}
					for i := range in {
						in[i] = '#'
					}
					if ok && !sameOps(q, want) {
						c.Failf("the patch read from %s changes with the caller's bytes", text)
					}
				}
				read(gap+"["+gap+one+gap+"]"+gap, []Op{op}, true)
				read("["+one+","+gap+one+"]", []Op{op, op}, true)
				text := "[" + one + "]"
				for i := range text {
					read(text[:i], nil, false)
				}
				for _, bad := range []string{text + "]", text + "x", text + text, "[" + one + ",]", "[," + one + "]", one + "," + one, "[" + one + one + "]", one} {
					read(bad, nil, false)
				}
				for _, bad := range []string{"9223372036854775808", "-9223372036854775809", "1e19", `"5"`, "true", "[5]", "{}"} {
					read(`[{"timestamp":`+bad+`,"op":"add","path":"/a","value":1}]`, nil, false)
				}
				for _, bad := range []string{"5", "true", "[]", "{}"} {
					read(`[{"path":`+bad+`,"op":"add","value":1,"timestamp":1}]`, nil, false)
					read(`[{"op":`+bad+`,"path":"/a","value":1,"timestamp":1}]`, nil, false)
				}
				read(`[{"op":"add","path":"/a","value":1e400,"timestamp":1}]`, nil, false)
			}},
			{Name: "patches", Depth: 3, Extra: 1, Body: func(c *Ctx) {
				ops := []Op{add("/n", "v", 3), rem("/a", 4), rpl("/l/1", 2.5, 5), rpl("/o/k", nil, 6), add("/o/~1", false, -1), rpl("l.0", 7, 1<<60+1), rem("/l/0", 0), rpl("/a", "", 2)}
				p := []Op{}
				for len(p) < c.Depth {
					k := c.Choose(len(ops) + 1)
					if k == 0 {
						break
					}
					p = append(p, ops[k-1])
				}
				c.Log("patch %s", lops(p))
				c.State(opsStr(p))
				written(c, doc, p)
			}},
			{Name: "scale", Limit: 1 << 40, Body: func(c *Ctx) {
				shape, n := c.size(scaleShapes, func(int) int { return 513 })
				var ops []Op
				for i := 1; i <= n; i++ {
					ops = append(ops, scaleOps(shape, n, i)...)
				}
				c.Log("patch of shape %d with %d steps", shape, n)
				written(c, scaleWorld().doc, ops)
				written(c, doc, []Op{add("/"+strings.Repeat("k/", n), strings.Repeat("v\"", n), int64(n))})
			}},
		}
	}})
}

// written checks C20 for one patch.
func written(c *Ctx, doc *N, ops []Op) {
	c.Step()
	p := tsonpatch.Patch(ops)
	before := opsStr(ops)
	var held [][]byte // texts given so far, and what they were
	var were []string
	back := func(how string, b []byte, err error) {
		held, were = append(held, b), append(were, string(b))
		if err != nil {
			c.Failf("%s of %s fails: %v", how, before, err)
		}
		if !json.Valid(b) {
			c.Failf("%s of %s writes invalid JSON %s", how, before, head(string(b), 800))
		}
		q, err := tsonpatch.Unmarshal(b)
		if err != nil || !sameOps(q, ops) {
			c.Failf("%s of %s writes %s, which is read back as %v %s", how, before, head(string(b), 800), err, opsStr(q))
		}
		want, v := refPatch(doc, ops)
		if v == vGray {
			return
		}
		got, err := tsonpatch.ApplyPatch(doc.toT(), q)
		if (err == nil) != (v == vOK) || v == vOK && !sameDoc(got, want) {
			c.Failf("%s of %s and back: applying gives %v %v, not %v", how, before, err, fromT(got), want)
		}
	}
	back("String", []byte(p.String()), nil)
	b, err := json.Marshal(p)
	back("json.Marshal", b, err)
	b, err = json.MarshalIndent(&p, "", "  ")
	back("json.MarshalIndent", b, err)
	q, err := tsonpatch.FromJson(p)
	if err != nil || !sameOps(q, ops) {
		c.Failf("FromJson of %s gives %v %s", before, err, opsStr(q))
	}
	var small bool = true
	for i := range ops {
		small = small && ops[i].Timestamp <= 1<<53 && ops[i].Timestamp >= -1<<53
	}
	if small {
		var j any
		json.Unmarshal(b, &j)
		if q, err := tsonpatch.FromJson(j); err != nil || !sameOps(q, ops) {
			c.Failf("FromJson of the decoded %s gives %v %s", before, err, opsStr(q))
		}
	}
	var parts, strs []string
	for i := range ops {
		b, err := ops[i].Marshal()
		if err != nil {
			c.Failf("Marshal of %s fails: %v", opStr(ops[i]), err)
		}
		held, were = append(held, b), append(were, string(b))
		parts = append(parts, string(b))
		strs = append(strs, ops[i].String())
	}
	back("Marshal of each operation", []byte("["+strings.Join(parts, ",")+"]"), nil)
	back("String of each operation", []byte("["+strings.Join(strs, ",")+"]"), nil)
	if opsStr(p) != before {
		c.Failf("writing modifies the patch %s", before)
	}
	for i := range held {
		if string(held[i]) != were[i] {
			c.Failf("the text %s of %s becomes %s", were[i], before, held[i])
		}
	}
}
