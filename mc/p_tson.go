package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
)

var indents = []string{"", " ", "  ", "    ", "\t", "\t ", "\n", "\r\n", " \n\t"}
var prefixes = []string{"", "  ", "\t", "\n", "\r\n "}

// sameDoc compares a document the code returned with the model.
func sameDoc(got tson.Tson, want *N) bool { return eq(fromT(got), want) }

func parseText(b []byte) (t tson.Tson, err error) {
	err = tson.Unmarshal(b, &t)
	return
}

// roundTrip checks C12 for one document.
func roundTrip(c *Ctx, doc *N, indented [][2]string) {
	t := doc.toT()
	check := func(how string, b []byte, err error) {
		c.Step()
		if err != nil {
			c.Failf("%s of %s fails: %v", how, head(doc.String(), 600), err)
		}
		before := string(b)
		got, err := parseText(b)
		if err != nil {
			c.Failf("%s of %s writes\n%s\nwhich cannot be parsed: %v", how, head(doc.String(), 600), head(before, 900), err)
		}
		if !sameDoc(got, doc) {
			c.Failf("%s of\n  %s writes\n%s\nwhich is parsed as\n  %s", how, head(doc.String(), 600), head(before, 900), head(fromT(got).String(), 600))
		}
		if string(b) != before {
			c.Failf("parsing modifies its input %q", head(before, 600))
		}
		// the text and the documents are independent
		for i := range b {
			b[i] = '#'
		}
		if !sameDoc(got, doc) {
			c.Failf("the document parsed from %s changes with the caller's bytes", head(before, 600))
		}
	}
	held, _ := tson.Marshal(t)
	heldIndented, _ := tson.MarshalIndent(t, " ", "\t")
	were, wereIndented := string(held), string(heldIndented)
	b, err := tson.Marshal(t)
	first := string(b)
	check("Marshal", b, err)
	if b, err := tson.Marshal(t); string(b) != first && len(doc.o) == 0 && len(doc.a) == 0 {
		c.Failf("Marshal of %s gives %q and then %q (%v)", head(doc.String(), 600), head(first, 300), head(string(b), 300), err)
	}
	for _, in := range indented {
		b, err := tson.MarshalIndent(t, in[0], in[1])
		check(fmt.Sprintf("MarshalIndent(%q, %q)", in[0], in[1]), b, err)
	}
	if fitsFloat(doc) {
		// the indented form can also be written from the JSON form
		var j any
		if err := tson.ToCompatibleTson(t, &j); err == nil {
			b, err := tson.MarshalIndent(j, "", "  ")
			check("MarshalIndent of the JSON form", b, err)
			check("Marshal", []byte(first), nil)
		}
	}
	// and from maps and slices of Go, with timestamps or plain
	b, err = tson.MarshalIndent(doc.toCompatible(), "", " ")
	check("MarshalIndent of maps and slices", b, err)
	if plain, ok := doc.untimed(); ok {
		timed := doc
		doc = plain
		b, err = tson.MarshalIndent(plain.toJ(), "", "  ")
		check("MarshalIndent of plain maps and slices", b, err)
		doc = timed
	}
	if string(held) != were || string(heldIndented) != wereIndented {
		c.Failf("the text %q of a document becomes %q", head(were+wereIndented, 600), head(string(held)+string(heldIndented), 600))
	}
	if !sameDoc(t, doc) {
		c.Failf("serializing modifies the document %s", head(doc.String(), 600))
	}
}

// toCompatible is the compatible form as values of Go.
func (n *N) toCompatible() any {
	switch n.k {
	case 'o':
		m := map[string]any{}
		for k, v := range n.o {
			m[k] = v.toCompatible()
		}
		return m
	case 'a':
		l := []any{}
		for _, v := range n.a {
			l = append(l, v.toCompatible())
		}
		return l
	case 'z':
		return nil
	}
	return map[string]any{"value": n.toJ(), "timestamp": n.ts}
}

// untimed is the document without timestamps, unless its plain form could be
// read with one.
func (n *N) untimed() (*N, bool) {
	out, ok := *n, true
	switch n.k {
	case 'o':
		t := n.o["timestamp"]
		ok = len(n.o) != 2 || t == nil || t.k != 'n' || n.o["value"] == nil
		out.o = map[string]*N{}
		for k, v := range n.o {
			u, fine := v.untimed()
			out.o[k], ok = u, ok && fine
		}
	case 'a':
		out.a = nil
		for _, v := range n.a {
			u, fine := v.untimed()
			out.a, ok = append(out.a, u), ok && fine
		}
	case 's', 'n', 'b':
		out.ts = -1
	}
	return &out, ok
}

// fitsFloat: the document is valid UTF-8 and its timestamps fit a float64.
func fitsFloat(n *N) bool {
	switch n.k {
	case 'o':
		for k, v := range n.o {
			if !utf8.ValidString(k) || !fitsFloat(v) {
				return false
			}
		}
	case 'a':
		for _, v := range n.a {
			if !fitsFloat(v) {
				return false
			}
		}
	case 's':
		return utf8.ValidString(n.s) && n.ts <= 1<<53 && n.ts >= -1<<53
	case 'n', 'b':
		return n.ts <= 1<<53 && n.ts >= -1<<53
	}
	return true
}

// corpus: documents for properties of single documents.
func corpusFamilies(name string, tier string, raw bool, check func(c *Ctx, doc *N)) []Family {
	leaves := allLeaves(raw)
	keys := keyAlphabet
	if raw {
		keys = append(append([]string{}, keys...), rawAlphabet...)
	}
	deeper := 0
	if tier == "thorough" {
		deeper = 1
	}
	fams := []Family{
		{Name: name + "leaves", Orders: 2, Body: func(c *Ctx) {
			i := c.Choose(len(contexts))
			doc := inContext(i, leaves[c.Choose(len(leaves))])
			c.Log("document %s", head(doc.String(), 400))
			c.State(doc.String())
			check(c, doc)
		}},
		{Name: name + "keys", Orders: 2, Body: func(c *Ctx) {
			k := keys[c.Choose(len(keys))]
			l := keys[:14][c.Choose(14)]
			v := []*N{num(1, 2), str("v", -1), null, obj(), arr(), obj(l, num(3, 4))}[c.Choose(6)]
			doc := obj(k, v, l, boo(true, 3))
			if c.Bool() {
				doc = arr(obj("o", doc))
			}
			c.Log("document %s", head(doc.String(), 400))
			c.State(doc.String())
			check(c, doc)
		}},
		{Name: name + "scale", Orders: 2, Limit: 1 << 40, Weight: 4, Body: func(c *Ctx) {
			shape, n := c.size(docShapes, docMost)
			c.Log("document of shape %d and size %d", shape, n)
			c.State(fmt.Sprint(shape, n))
			check(c, scaleDoc(shape, n))
		}},
		{Name: name + "odd-one", Limit: 1 << 40, Body: func(c *Ctx) {
			even, odd := c.oddOne(oddOnes)
			_ = even
			c.State(odd.String())
			check(c, odd)
		}},
		{Name: name + "odd-character", Limit: 1 << 40, Body: func(c *Ctx) {
			t := c.oddText()
			i := c.Choose(2)
			c.Log("text of %d bytes", len(t))
			c.State(t + fmt.Sprint(i))
			check(c, []*N{obj("a", arr(str(t, 5), num(1, 1))), obj(t, str("v", -1), "b", boo(true, 1))}[i])
		}},
	}
	for _, a := range []struct {
		name string
		al   *alphabet
		fuel int
	}{{"trees", &alphaSmall, 5 + deeper}, {"narrow-trees", &alphaTiny, 5 + deeper}, {"special-keys", &alphaKeys, 5 + deeper}} {
		fams = append(fams, Family{Name: name + a.name, Depth: a.fuel, Extra: 1, Body: func(c *Ctx) {
			doc := c.doc(a.al, c.Depth)
			c.Log("document %v", doc)
			if c.Depth >= a.fuel {
				c.State(doc.String())
			}
			check(c, doc)
		}})
	}
	return fams
}

// plainJSON generates JSON values which are not made from documents.
func (c *Ctx) plainJSON(fuel *int) any {
	*fuel--
	switch c.Choose(8) {
	case 0:
		return nil
	case 1:
		return 1.5
	case 2:
		return ""
	case 3:
		return true
	case 4:
		return "5"
	case 5:
		return 9007199254740993.0
	case 6:
		m := map[string]any{}
		for _, k := range []string{"value", "timestamp", "k"} {
			if *fuel > 0 && c.Bool() {
				m[k] = c.plainJSON(fuel)
			}
		}
		return m
	}
	a := []any{}
	for len(a) < 3 && *fuel > 0 && c.Bool() {
		a = append(a, c.plainJSON(fuel))
	}
	return a
}

func jstr(j any) string {
	b, err := json.Marshal(j)
	if err != nil {
		return fmt.Sprintf("%#v", j)
	}
	return string(b)
}

// conversions checks C14 for one document.
func conversions(c *Ctx, doc *N) {
	t := doc.toT()
	show := func() string { return head(doc.String(), 600) }
	bad := func(how string, err error, got string) {
		if err != nil {
			c.Failf("%s of %s fails: %v", how, show(), err)
		}
		c.Failf("%s of\n  %s gives\n  %s", how, show(), head(got, 900))
	}
	var held [][]byte // texts given so far, and what they were
	var were []string
	back := func(how string, b []byte) {
		c.Step()
		var t2 tson.Tson
		in := string(b)
		if err := tson.FromCompatibleTsonBytes(b, &t2); err != nil {
			bad(how+" and back", err, "")
		}
		if !sameDoc(t2, doc) {
			bad(how+" and back", nil, fromT(t2).String()+"\n  through "+head(in, 600))
		}
		if in != string(b) {
			c.Failf("FromCompatibleTsonBytes modifies its input")
		}
		held, were = append(held, b), append(were, in)
	}
	// the JSON form with timestamps
	b, err := tson.ToCompatibleTsonBytes(t)
	c.Step()
	if err != nil {
		bad("ToCompatibleTsonBytes", err, "")
	}
	var j1 any
	if err := json.Unmarshal(b, &j1); err != nil {
		bad("ToCompatibleTsonBytes", nil, string(b))
	}
	back("ToCompatibleTsonBytes", b)
	back("ToCompatibleTsonString", []byte(tson.ToCompatibleTsonString(t)))
	sb, err := tson.ToCompatibleTsonBytesSorted(t)
	if err != nil {
		bad("ToCompatibleTsonBytesSorted", err, "")
	}
	back("ToCompatibleTsonBytesSorted", sb)
	var o any
	if err := tson.ToCompatibleTson(t, &o); err != nil || !reflect.DeepEqual(o, j1) {
		bad("ToCompatibleTson", err, jstr(o))
	}
	if fitsFloat(doc) {
		b, _ := json.Marshal(o)
		back("ToCompatibleTson", b)
	}
	// without timestamps
	want := doc.toJ()
	var j any
	c.Step()
	if err := tson.ToJson(t, &j); err != nil || !sameJSON(j, want) {
		bad("ToJson", err, jstr(j))
	}
	jb, err := tson.ToJsonBytes(t)
	var j2 any
	if err != nil || json.Unmarshal(jb, &j2) != nil || !sameJSON(j2, want) {
		bad("ToJsonBytes", err, string(jb))
	}
	if doc.k == 'a' {
		arr, err := tson.ToArray(t.(tson.Array))
		leaves := true
		for _, e := range doc.a {
			leaves = leaves && e.leaf()
		}
		if (err == nil) != leaves || err == nil && !sameJSON(arr, want) {
			bad("ToArray", nil, fmt.Sprint(arr, err))
		}
	}
	held, were = append(held, jb), append(were, string(jb))
	other := tson.Object{"other": tson.Leaf[float64]{Value: 7, Timestamp: 7}} // another one in between
	tson.ToCompatibleTsonBytes(other)
	tson.ToCompatibleTsonBytesSorted(other)
	tson.ToJsonBytes(other)
	for i := range held {
		if string(held[i]) != were[i] {
			c.Failf("the text %s of %s becomes %s", head(were[i], 300), show(), head(string(held[i]), 300))
		}
	}
	if !sameDoc(t, doc) {
		c.Failf("a conversion modifies the document %s", show())
	}
	// and from plain JSON
	fromPlain(c, want)
}

func fromPlain(c *Ctx, j any) {
	before := jstr(j)
	var t tson.Tson
	c.Step()
	want := fromJ(j)
	if err := tson.FromJson(j, &t); err != nil || !sameDoc(t, want) {
		c.Failf("FromJson of %s gives %v %s", head(before, 600), err, head(fromT(t).String(), 600))
	}
	if jstr(j) != before {
		c.Failf("FromJson modifies the value given, from %s to %s", head(before, 600), head(jstr(j), 600))
	}
	if !jsonOnly(j) {
		c.Failf("FromJson modifies the value given: %#v", j)
	}
	var t2 tson.Tson
	if err := tson.FromJsonBytes([]byte(before), &t2); err != nil || !sameDoc(t2, want) {
		c.Failf("FromJsonBytes of %s gives %v %s", head(before, 600), err, head(fromT(t2).String(), 600))
	}
	var j2 any
	if err := tson.ToJson(t, &j2); err != nil || !sameJSON(j2, j) {
		c.Failf("FromJson and back turns %s into %v %s", head(before, 600), err, head(jstr(j2), 600))
	}
}

func jsonOnly(j any) bool {
	switch v := j.(type) {
	case map[string]any:
		for _, x := range v {
			if !jsonOnly(x) {
				return false
			}
		}
		return true
	case []any:
		for _, x := range v {
			if !jsonOnly(x) {
				return false
			}
		}
		return true
	case nil, string, float64, bool:
		return true
	}
	return false
}

func sameJSON(a, b any) bool {
	x, y := fromJ(a), fromJ(b)
	return eq(x, y)
}

// pairChecks are the answers of C15 on two documents.
func pairChecks(c *Ctx, a, b *N) {
	x, y := a.toT(), b.toT()
	c.Step()
	for _, w := range []bool{true, false} {
		f, name := tson.Equal, "Equal"
		if !w {
			f, name = tson.EqualWithoutTimestamp, "EqualWithoutTimestamp"
		}
		want := eqn(a, b, w)
		got, err := f(x, y)
		rev, err2 := f(y, x)
		if err != nil || err2 != nil || got != want || rev != want {
			c.Failf("%s of\n  %s\n  %s\nis %v (%v), the other way round %v (%v)", name, head(a.String(), 600), head(b.String(), 600), got, err, rev, err2)
		}
	}
	if !sameDoc(x, a) || !sameDoc(y, b) {
		c.Failf("comparing modifies a document")
	}
}

func selfChecks(c *Ctx, a *N) {
	x := a.toT()
	c.Step()
	if got := tson.GetLatestTimestamp(x); got != a.latest() {
		c.Failf("GetLatestTimestamp of %s is %d, not %d", head(a.String(), 600), got, a.latest())
	}
	if !sameDoc(x, a) {
		c.Failf("GetLatestTimestamp modifies a document")
	}
	pairChecks(c, a, a)
}

// mutants of a document: everything that differs in one place.
func mutants(n *N) []*N {
	var out []*N
	var walk func(n *N, put func(*N) *N)
	walk = func(n *N, put func(*N) *N) {
		add := func(m *N) { out = append(out, put(m)) }
		switch n.k {
		case 'o':
			for _, k := range n.keys() {
				walk(n.o[k], func(m *N) *N { return put(n.withKey(k, m)) })
				add(n.withKey(k, nil))
				add(n.withKey(k, nil).withKey(k+"x", n.o[k]))
			}
			add(n.withKey("new", null))
			add(null)
			if len(n.o) == 0 {
				add(arr())
			}
		case 'a':
			for i := range n.a {
				walk(n.a[i], func(m *N) *N {
					a := append([]*N{}, n.a...)
					a[i] = m
					return put(arr(a...))
				})
				a := append([]*N{}, n.a[:i]...)
				add(arr(append(a, n.a[i+1:]...)...))
				if i > 0 {
					a := append([]*N{}, n.a...)
					a[i], a[i-1] = a[i-1], a[i]
					add(arr(a...))
				}
			}
			add(arr(append(append([]*N{}, n.a...), null)...))
			add(null)
			if len(n.a) == 0 {
				add(obj())
			}
		case 'z':
			add(obj())
			add(arr())
			add(str("", -1))
			add(num(0, -1))
			add(boo(false, -1))
		case 's':
			add(str(n.s+" ", n.ts))
			add(str(n.s, n.ts+1))
			add(null)
			add(boo(true, n.ts))
			add(obj("value", str(n.s, n.ts)))
		case 'n':
			add(num(math.Nextafter(n.f, math.Inf(1)), n.ts))
			add(num(n.f, n.ts+1))
			add(str(fmt.Sprint(n.f), n.ts))
			add(arr(n))
		case 'b':
			add(boo(!n.b, n.ts))
			add(boo(n.b, n.ts-1))
			add(str(fmt.Sprint(n.b), n.ts))
		}
	}
	walk(n, func(m *N) *N { return m })
	return out
}

// C16
func lookupCheck(c *Ctx, doc *N, t tson.Tson, path string) {
	c.Step()
	want, ok, gray := doc.get(splitPath(path))
	var got tson.Value
	var err error
	got, err = getValue(t, path)
	if gray {
		return
	}
	if ok && (err != nil || !sameDoc(got, want)) {
		c.Failf("GetValue(%q) of %s gives %v %v, not %v", path, head(doc.String(), 500), fromT(got), err, want)
	}
	if !ok && err == nil {
		c.Failf("GetValue(%q) of %s gives %v, but the path leads nowhere", path, head(doc.String(), 500), fromT(got))
	}
	if !ok && got != nil {
		c.Failf("GetValue(%q) of %s gives the value %v with the error %v", path, head(doc.String(), 500), fromT(got), err)
	}
}

// a document with many kinds of names
func lookupDocs() []*N {
	return []*N{
		obj("a", num(1, 1), "b", obj("a", str("x", 2), "0", num(9, 9), "b", arr(num(1, 1), num(2, 2))), "0", arr(obj("a", boo(true, 1)), arr(num(3, 3), null), null)),
		obj("", num(1, 1), "a/b", num(2, 2), "a.b", num(3, 3), "~", num(4, 4), "~1", num(5, 5), "~0", num(6, 6), "/", num(7, 7), ".", num(8, 8),
			"a", obj("", obj("", num(9, 9)), "b", num(10, 10), "~b", num(11, 11)), "-", num(12, 12), "~01", num(13, 13), "0", null, "1", obj("0", str("y", 1))),
		arr(num(1, 1), arr(num(2, 2), arr(num(3, 3), obj("a", num(4, 4)))), obj("0", num(5, 5), "1", arr(num(6, 6))), null),
		num(1, 1), str("abc", -1), null, obj(), arr(),
	}
}

func init() {
	register(&Prop{ID: "C12", Assumptions: []string{
		"numbers are finite and not minus zero, timestamps are -1 (missing) or not negative",
		"documents come from the alphabets in mc/gen.go, up to the stated number of nodes, and from the scale shapes up to size 1025 (300 when deep)",
	}, Families: func(tier string) []Family {
		fams := corpusFamilies("", tier, true, func(c *Ctx, doc *N) {
			roundTrip(c, doc, [][2]string{{"", "  "}, {"", ""}, {"\t", "\n"}})
		})
		return append(fams, Family{Name: "indentation", Orders: 2, Body: func(c *Ctx) {
			docs := append(lookupDocs(), inContext(5, num(1.5, 7)), inContext(6, str("\n<5>", -1)), inContext(8, boo(false, 0)), scaleDoc(6, 17), scaleDoc(5, 3))
			doc := docs[c.Choose(len(docs))]
			p, in := prefixes[c.Choose(len(prefixes))], indents[c.Choose(len(indents))]
			c.Log("prefix %q indent %q document %s", p, in, head(doc.String(), 400))
			roundTrip(c, doc, [][2]string{{p, in}})
		}})
	}})

	register(&Prop{ID: "C14", Assumptions: []string{
		"strings and keys are valid UTF-8, numbers are finite and not minus zero",
		"documents and JSON values come from the alphabets in mc/gen.go and mc/p_tson.go, up to the stated number of nodes, and from the scale shapes up to size 1025 (300 when deep)",
	}, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		fams := corpusFamilies("", tier, false, conversions)
		return append(fams, Family{Name: "plain-json", Depth: 5 + deeper, Extra: 1, Body: func(c *Ctx) {
			fuel := c.Depth
			j := c.plainJSON(&fuel)
			c.Log("JSON %s", jstr(j))
			fromPlain(c, j)
		}}, Family{Name: "negative-times", Orders: 2, Body: func(c *Ctx) {
			ts := []int64{-2, -1000, math.MinInt64, math.MinInt64 + 1}[c.Choose(4)]
			l := []*N{num(1, ts), str("x", ts), boo(false, ts)}[c.Choose(3)]
			conversions(c, inContext(c.Choose(len(contexts)), l))
		}})
	}})

	register(&Prop{ID: "C15", Assumptions: []string{
		"strings and keys are valid UTF-8, numbers are finite and not minus zero, empty containers are not nil",
		"pairs of documents of up to the stated number of nodes each, and of any document of the alphabets with every document that differs from it in one place",
	}, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		fams := corpusFamilies("", tier, false, func(c *Ctx, doc *N) { selfChecks(c, doc) })
		return append(fams,
			Family{Name: "pairs", Depth: 3 + deeper, Extra: 1, Body: func(c *Ctx) {
				a, b := c.doc(&alphaSmall, c.Depth), c.doc(&alphaSmall, c.Depth)
				c.Log("pair %v %v", a, b)
				pairChecks(c, a, b)
			}},
			Family{Name: "odd-pairs", Limit: 1 << 40, Body: func(c *Ctx) {
				a, b := c.oddOne(oddOnes)
				pairChecks(c, a, b)
			}},
			Family{Name: "mutants", Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) {
				a := c.doc(&alphaSmall, c.Depth)
				c.Log("mutants of %v", a)
				for _, m := range mutants(a) {
					pairChecks(c, a, m)
					c.latest(m)
				}
			}},
			Family{Name: "leaf-pairs", Body: func(c *Ctx) {
				ls := allLeaves(false)
				a, b := ls[c.Choose(len(ls))], ls[c.Choose(len(ls))]
				c.Log("pair %v %v", a, b)
				pairChecks(c, a, b)
				const i = 5
				pairChecks(c, inContext(i, a), inContext(i, b))
				c.latest(inContext(4, b))
			}},
			Family{Name: "large-mutants", Orders: 2, Limit: 1 << 40, Weight: 3, Body: func(c *Ctx) {
				shape, n := c.Choose(docShapes), []int{3, 8, 9, 16, 17, 33, 65}[c.Choose(7)]
				doc := scaleDoc(shape, n)
				ms := mutants(doc)
				k := c.Choose(8)
				c.Log("document of shape %d and size %d, mutants %d modulo 8", shape, n, k)
				for i := k; i < len(ms); i += 8 * max(1, len(ms)/100) {
					pairChecks(c, doc, ms[i])
					c.latest(ms[i])
				}
			}},
			Family{Name: "times", Orders: 2, Body: func(c *Ctx) {
				ts := append([]int64{math.MinInt64, -1000, -2}, tsAlphabet...)
				a, b := ts[c.Choose(len(ts))], ts[c.Choose(len(ts))]
				for _, d := range []*N{obj("a", num(1, a), "b", str("x", b)), arr(boo(true, a), obj("x", arr(num(1, b)))), arr(null, arr(num(1, a)), num(2, b)), obj("z", null, "o", obj("k", str("", a), "l", arr(obj("m", boo(true, b))))), num(1, a)} {
					c.Log("times of %v", d)
					selfChecks(c, d)
				}
			}},
		)
	}})

	register(&Prop{ID: "C16", Assumptions: []string{
		"array indices spelled with a plus sign or leading zeros are not judged",
		"paths are all strings over a small alphabet up to the stated length, and all sequences of the stated tokens, on the listed and generated documents",
	}, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		docs := lookupDocs()
		return []Family{
			{Name: "strings", Depth: 6 + deeper, Extra: 1, Body: func(c *Ctx) {
				const al = "/.~01ab-"
				d := c.Choose(len(docs))
				t := docs[d].toT()
				path := ""
				for len(path) < c.Depth-1 {
					k := c.Choose(len(al) + 1)
					if k == 0 {
						break
					}
					path += al[k-1 : k]
				}
				c.Log("document %d path %q", d, path)
				lookupCheck(c, docs[d], t, path)
				if len(path) == c.Depth-1 { // the last character here saves choices
					for i := range al {
						lookupCheck(c, docs[d], t, path+al[i:i+1])
					}
				}
				if !sameDoc(t, docs[d]) {
					c.Failf("looking up %q modifies the document", path)
				}
			}},
			{Name: "tokens", Depth: 3 + deeper, Extra: 1, Body: func(c *Ctx) {
				toks := []string{"a", "b", "0", "1", "2", "3", "-1", "-", "", "a.b", "~01", "~0", "~1", "a~1b", "x", "1x", "0x0", "1.0", "４", " 0", "9223372036854775808", "18446744073709551616", "256", "65536", "4294967297"}
				d := c.Choose(len(docs))
				t := docs[d].toT()
				sep := []string{"/", ".", "mix"}[c.Choose(3)]
				path := ""
				if sep == "/" {
					path = "/"
				}
				for i := 0; i < c.Depth; i++ {
					k := c.Choose(len(toks) + 1)
					if k == 0 {
						break
					}
					if i > 0 {
						if sep == "mix" {
							path += []string{".", "/"}[i%2]
						} else {
							path += sep
						}
					}
					path += toks[k-1]
				}
				lookupCheck(c, docs[d], t, path)
			}},
			{Name: "every-path", Depth: 5 + deeper, Extra: 1, Body: func(c *Ctx) {
				doc := c.doc(&alphaSmall, c.Depth)
				c.Log("document %v", doc)
				c.State(doc.String())
				everyPath(c, doc)
			}},
			{Name: "keys", Body: func(c *Ctx) {
				k, l := keyAlphabet[c.Choose(len(keyAlphabet))], keyAlphabet[c.Choose(len(keyAlphabet))]
				doc := obj(k, obj(l, num(1, 1), k+l, str("y", 2)), l, arr(num(2, 2), obj(k, boo(true, 3))), k+"/"+l, null, k+"."+l, num(5, 5))
				c.Log("document %v", doc)
				everyPath(c, doc)
			}},
			{Name: "scale", Limit: 1 << 40, Body: func(c *Ctx) {
				shape, n := c.size(docShapes, docMost)
				c.Log("document of shape %d and size %d", shape, n)
				if (shape == 2 || shape == 3) && n > 66 {
					c.Prune()
				}
				everyPath(c, scaleDoc(shape, n))
			}},
		}
	}})
}

func (c *Ctx) latest(n *N) {
	if got := tson.GetLatestTimestamp(n.toT()); got != n.latest() {
		c.Failf("GetLatestTimestamp of %s is %d, not %d", head(n.String(), 600), got, n.latest())
	}
}

// everyPath looks up every path of the document and its neighbours.
func everyPath(c *Ctx, doc *N) {
	t := doc.toT()
	var walk func(n *N, parts []string)
	walk = func(n *N, parts []string) {
		ptr := pointer(parts)
		look := func(p string) { lookupCheck(c, doc, t, p) }
		look(ptr)
		look(ptr + "/missing")
		look(ptr + "/0")
		look(ptr + "/-1")
		look(ptr + "/" + fmt.Sprint(len(n.a)))
		if len(parts) > 0 {
			esc := strings.NewReplacer("~", "~0", "/", "~1")
			var es []string
			for _, p := range parts {
				es = append(es, esc.Replace(p))
			}
			look(strings.Join(es, "."))
			look(strings.Join(es, "/"))
			look("/" + strings.Join(es, "."))
			look(strings.Join(parts, "/"))
			look("/" + strings.Join(parts, "/"))
		}
		sub := func(k string, m *N) { walk(m, append(append([]string{}, parts...), k)) }
		for _, k := range n.keys() {
			sub(k, n.o[k])
		}
		for i := range n.a {
			if len(n.a) < 40 || i < 12 || i > len(n.a)-4 || i%16 < 2 {
				sub(fmt.Sprint(i), n.a[i])
			}
		}
	}
	walk(doc, nil)
	if !sameDoc(t, doc) {
		c.Failf("looking up modifies the document %s", head(doc.String(), 600))
	}
}
