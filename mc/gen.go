package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
)

// alphabet of a document generator
type alphabet struct {
	leaves []*N
	keys   []string
	width  int // longest array
}

var (
	// small: every kind of leaf, with timestamps that matter
	alphaSmall = alphabet{leaves: []*N{num(1, 3), num(1, -1), num(2, 3), str("1", 3), boo(true, 0), null}, keys: []string{"a", "b"}, width: 3}
	alphaTiny  = alphabet{leaves: []*N{num(1, 3), num(2, 4), str("s", -1), null}, keys: []string{"a", "0"}, width: 3}
	alphaPair  = alphabet{leaves: []*N{num(1, 3), num(1, 4), num(2, 5), str("1", 3)}, keys: []string{"a", "b/~"}, width: 3}
	alphaKeys  = alphabet{leaves: []*N{num(1.5, 7), str("x", 2)}, keys: []string{"value", "timestamp", ""}, width: 2}
)

// gen builds every document of up to fuel nodes over the alphabet.
func (c *Ctx) gen(a *alphabet, fuel *int) *N {
	*fuel--
	kinds := len(a.leaves)
	k := c.Choose(kinds + 2)
	switch {
	case k < kinds:
		return a.leaves[k]
	case k == kinds:
		n := obj()
		for _, key := range a.keys {
			if *fuel <= 0 {
				break
			}
			if c.Bool() {
				n.o[key] = c.gen(a, fuel)
			}
		}
		return n
	}
	n := arr()
	for len(n.a) < a.width && *fuel > 0 && c.Bool() {
		n.a = append(n.a, c.gen(a, fuel))
	}
	return n
}

func (c *Ctx) doc(a *alphabet, fuel int) *N {
	f := fuel
	return c.gen(a, &f)
}

// values that are easily mistreated
var strAlphabet = []string{"", " ", "a", "0", "true", "null", "<5>", "\"", "\\", "\\\"", "/", "a/b", "~", "~0", "~1", "a.b", "\n", "\t", "\r", "\b", "\f", "\a", "\v",
	"\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u009f", "\u00a0", "\u00ad", "é", "\u0300", "가나다", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ufffe", "😀", "\U0010ffff", "\U000e0001",
	"</script>", "&amp;", "'", "`", "{\"a\": 1}", "[1, 2]", "a, b: c", "<>", "x<3", "%d%s", "\\u0041", "\\n", "end\\", "한 글\n줄", strings.Repeat("ab\n", 40)}

// strings which are not valid UTF-8
var rawAlphabet = []string{"\xff", "a\x80b", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80"}

var numAlphabet = []float64{0, 1, -1, 2, 10, 100, 0.1, 0.5, -0.5, 1.5, 33.333333333333336, 1.0 / 3, 12345678.9, 999999, 1000000, 9999999, 10000000, 12345678901, 1e20, 1e21, 1e22, 123456789012345680000,
	1e-4, 1e-5, 1e-6, 1e-7, 1.5e-10, 9007199254740991, 9007199254740992, 9007199254740994, 9223372036854775807, 18446744073709551615, 4294967296,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 0.30000000000000004, 5e-324, 1.7976931348623155e308, 2.2250738585072014e-308,
	123.456, 99.95, 0.005, 3.14159265358979, 1e100, -1e-100, 4.35, 1.005, 100.00000000000001, 2147483648, -2147483649}

var tsAlphabet = []int64{-1, 0, 1, 9, 10, 1700000000, 1700000000000, 2147483647, 2147483648, 4294967295, 4294967296, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1700000000000000001,
	1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64}

var keyAlphabet = append([]string{"value", "timestamp", "Value", "_ts", "key", "1", "00", "-"}, strAlphabet...)

// allLeaves: every value with a usual timestamp, every timestamp with a usual value.
func allLeaves(raw bool) []*N {
	var out []*N
	for _, s := range strAlphabet {
		out = append(out, str(s, 5))
	}
	if raw {
		for _, s := range rawAlphabet {
			out = append(out, str(s, 5))
		}
	}
	for _, f := range numAlphabet {
		out = append(out, num(f, 5))
	}
	for _, t := range tsAlphabet {
		out = append(out, num(2, t), str("x", t), boo(true, t), boo(false, t))
	}
	return append(out, null, obj(), arr())
}

// contexts in which a value can stand
var contexts = []string{"top", "member", "second member", "element", "second element", "after a container", "before a container", "deep", "between nulls"}

func inContext(i int, n *N) *N {
	switch i {
	case 0:
		return n
	case 1:
		return obj("k", n)
	case 2:
		return obj("a", num(1, 1), "k", n, "z", str("e", -1))
	case 3:
		return arr(n)
	case 4:
		return arr(str("s", 1), n, boo(false, -1))
	case 5:
		return obj("a", arr(obj(), arr()), "k", n, "l", arr(obj("x", null), n))
	case 6:
		return arr(n, obj("k", n, "o", obj("k", n)), arr(n, arr(n)))
	case 7:
		return obj("o", obj("o", arr(arr(obj("k", n)))))
	}
	return arr(null, n, null, obj("a", null, "b", n, "c", null))
}

// scaleDoc is a document of size n in one of several shapes.
const docShapes = 7

// docMost: deep documents are the ones whose size costs.
func docMost(shape int) int {
	if shape == 2 || shape == 3 {
		return 300
	}
	return 1025
}

func scaleDoc(shape, n int) *N {
	leaf := func(i int) *N {
		switch i % 4 {
		case 0:
			return num(float64(i)/4, int64(i))
		case 1:
			return str(fmt.Sprintf("v%d", i), int64(i)*1000003)
		case 2:
			return boo(i%8 < 4, -1)
		}
		return num(float64(i*i), int64(i%7))
	}
	switch shape {
	case 0: // wide object
		o := obj()
		for i := 0; i < n; i++ {
			o.o[fmt.Sprintf("k%d", i)] = leaf(i)
		}
		return o
	case 1: // long array
		a := arr()
		for i := 0; i < n; i++ {
			a.a = append(a.a, leaf(i))
		}
		return a
	case 2: // deep objects
		d := leaf(n)
		for i := 0; i < n; i++ {
			d = obj("o", d, "l", leaf(i))
		}
		return d
	case 3: // deep arrays
		d := leaf(n)
		for i := 0; i < n; i++ {
			d = arr(leaf(i), d)
		}
		return d
	case 4: // long strings
		return obj("s", str(strings.Repeat("x\"\n", n), 5), strings.Repeat("k", n), num(1, 2))
	case 5: // table
		a := arr()
		for i := 0; i < n; i++ {
			a.a = append(a.a, obj("id", num(float64(i), int64(i)), "tags", arr(str("t", int64(i)), null)))
		}
		return obj("rows", a)
	}
	o := obj() // containers and nulls
	for i := 0; i < n; i++ {
		o.o[fmt.Sprintf("g%d", i)] = []*N{obj(), arr(), null, obj("x", leaf(i)), arr(leaf(i), leaf(i+1))}[i%5]
	}
	return o
}

// oddOne chooses a container of n alike elements, and what it is with one of
// them replaced by another.
func (c *Ctx) oddOne(odds []*N) (even, odd *N) {
	n := []int{9, 12, 17, 33, 65, 102, 129, 257, 300}[c.Choose(9)]
	var at []int
	for _, p := range []int{0, 1, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, n / 2, n - 2, n - 1} {
		if p < n && !slices.Contains(at, p) {
			at = append(at, p)
		}
	}
	p, kind, o := at[c.Choose(len(at))], c.Choose(4), odds[c.Choose(len(odds))]
	c.Log("the element %d of %d is %v, kind %d", p, n, o, kind)
	mk := func(o *N) *N {
		a, m := arr(), obj()
		for i := 0; i < n; i++ {
			e := num(1, 3)
			if i == p && o != nil {
				e = o
			}
			a.a = append(a.a, e)
			m.o[fmt.Sprintf("k%03d", i)] = e
		}
		switch kind {
		case 0:
			return a
		case 1:
			return m
		case 2:
			return obj("l", a, "z", num(2, 2))
		}
		return arr(num(2, 2), obj("o", m), str("s", 1))
	}
	return mk(nil), mk(o)
}

var oddOnes = []*N{num(1, 4), num(2, 3), str("1", 3), boo(true, 3), null, obj(), arr(), obj("x", num(1, 3)), arr(num(1, 3)), num(1, -1)}

// oddText chooses a long string of which one character is another one.
func (c *Ctx) oddText() string {
	n := []int{9, 17, 33, 65, 129, 257, 513, 1025, 4097}[c.Choose(9)]
	var at []int
	for _, p := range []int{0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4094, 4095, 4096, n - 2, n - 1} {
		if p < n && !slices.Contains(at, p) {
			at = append(at, p)
		}
	}
	p := at[c.Choose(len(at))]
	odd := []string{"\"", "\\", "\n", "\x00", "é", "\u2028", "😀", "<", "\x7f", " ", "~", "/", "."}[c.Choose(13)]
	return strings.Repeat("x", p) + odd + strings.Repeat("x", n-p-1)
}
