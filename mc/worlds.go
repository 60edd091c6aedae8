package main

import "math"

// world is a first document with an alphabet of changes.
type world struct {
	name    string
	doc     *N
	batches [][]Op // changes stored together
	sets    []Op   // changes for Set and TestSet
	targets []string
	numeric bool
}

const big = int64(1) << 53

func worlds() []world {
	return []world{
		{name: "flat",
			doc: obj("a", num(1, 1), "b", str("x", 2)),
			batches: [][]Op{
				{rpl("/a", 1.0, 2)},
				{rpl("/a", 2.0, 3)},
				{add("/b", "y", 3), rpl("/a", 2.0, 4)},
				{rem("/a", 5)},
				{add("/c", true, 4)},
			},
			sets:    []Op{rpl("/a", 1.0, 3), add("/c", false, 5), rpl("/b", "x", 4), rpl("/d", "n", 2)},
			targets: []string{"", "/a", "a", "/b", "/c"},
		},
		{name: "nested",
			doc: obj("m", obj("x", num(1, 1), "y", obj("z", str("s", 2))), "n", num(0, 0)),
			batches: [][]Op{
				{rpl("/m/x", 2.0, 2)},
				{rpl("m.y.z", "s", 3), rpl("/m/y/z", "t", 4)},
				{rem("/m", 3)},
				{add("/m/y/z", "s", 3)},
				{rpl("/m", true, 4)},
				{rem("/m/y", 5), add("/p/q/r", 1.0, 5)},
			},
			sets:    []Op{rpl("/m/x", 1.0, 3), rpl("m.y.z", "s", 5), rpl("/m", 5, 2), add("/m/x/deep", 1, 3)},
			targets: []string{"", "/m", "/m/", "m.y", "/m/y/z", "/m/x", "/p", "/p/q/r"},
		},
		{name: "arrays",
			doc: obj("l", arr(num(1, 1), num(2, 2), str("c", 3)), "q", arr(arr(num(7, 1)), obj("k", boo(true, 1)))),
			batches: [][]Op{
				{rpl("/l/0", 1.0, 4)},
				{rem("/l/0", 5)},
				{add("/l/1", 2.0, 4)},
				{add("/l/4", "e", 6)},
				{rpl("/q/1/k", true, 2), rpl("/q/0/0", 8.0, 3)},
				{rem("/q/0", 4)},
			},
			sets:    []Op{rpl("/l/1", 2, 5), rpl("l.2", "c", 7), add("/l/3", false, 4), rpl("/q/x", 1, 4)},
			targets: []string{"", "/l", "/l/0", "/l/1", "l.1", "/q", "/q/1", "/q/1/k"},
		},
		{name: "escapes",
			doc: obj("a/b", num(1, 1), "m~n", str("x", 2), "", boo(true, 1), "x.y", num(3, 2), "x", obj("y", num(4, 1))),
			batches: [][]Op{
				{rpl("/a~1b", 2.0, 2)},
				{rpl("/m~0n", "x", 3), rpl("/m~0n", "z", 4)},
				{rpl("/", false, 3)},
				{rpl("/x.y", 9.0, 5)},
				{rem("x.y", 4)},
				{add("/~01", "é\"\\\n", 5)},
			},
			sets:    []Op{rpl("/a~1b", 1, 3), rpl("/x.y", 3, 4), rpl("/x/y", 4, 5), rpl("/~01", "", 6)},
			targets: []string{"", "/a~1b", "/a", "/m~0n", "/x.y", "x.y", "/x", "/~01"},
		},
		{name: "lookalikes", // paths that are easily taken for each other
			doc: obj("a/b", num(1, 1), "a", obj("b", num(1, 1)), "a.b", num(1, 1), "ab", num(1, 1)),
			batches: [][]Op{
				{rpl("/a~1b", 2.0, 2)},
				{rpl("/a/b", 2.0, 3)},
				{rpl("/a.b", 2.0, 2), rpl("/ab", 2.0, 4)},
				{rpl("a.b", 2.0, 3)},
				{rem("/a/b", 4)},
				{rem("/a~1b", 3)},
			},
			sets:    []Op{rpl("/a~1b", 2, 3), rpl("/a/b", 2, 4), rpl("/a.b", 1, 5), rpl("/A", 2, 5)},
			targets: []string{"", "/a", "/a/b", "a.b", "/a~1b", "/a.b", "/ab"},
		},
		{name: "prefixes",
			doc: obj("speed", num(1, 1), "speedLimit", num(2, 1), "s", obj("p", num(3, 1)), "sp", str("q", 1)),
			batches: [][]Op{
				{rpl("/speed", 1.0, 2), rpl("/speedLimit", 2.0, 2)},
				{rpl("/speed", 5.0, 3)},
				{rpl("/speedLimit", 2.0, 4)},
				{rpl("/s/p", 3.0, 5), rpl("/sp", "q", 5)},
				{rem("/s/p", 6)},
				{rem("/sp", 5)},
			},
			sets:    []Op{rpl("/speed", 5, 6), rpl("/s/p", 3, 6)},
			targets: []string{"/speed", "/speedLimit", "/s", "/sp", "/s/p", "/spe", ""},
		},
		{name: "numkeys",
			doc: obj("1", obj("2", num(1, 1), "3", str("x", 1)), "0", num(0, 1)),
			batches: [][]Op{
				{rpl("/1/2", 1.0, 2)},
				{rem("/1/3", 3)},
				{rpl("/1/2", 2.0, 4), rpl("/0", 0.0, 4)},
				{rem("/1", 5)},
				{add("/1/0", "n", 6)},
			},
			sets:    []Op{rpl("/1/2", 1, 7), rpl("/0", 0, 7)},
			targets: []string{"", "/1", "/1/2", "/0", "1.3"},
			numeric: true,
		},
		{name: "types",
			doc: obj("v", num(1, 1), "z", null, "o", obj("k", null), "e", obj(), "l", arr()),
			batches: [][]Op{
				{rpl("/v", "1", 2)},
				{rpl("/v", true, 3)},
				{rpl("/v", 1, 4)},
				{rpl("/z", "true", 2), rpl("/o", 0.0, 3)},
				{add("/e/f", "", 4), add("/l/0", false, 4)},
				{add("/z/0/a", 1.5, 5)},
			},
			sets:    []Op{rpl("/v", 1, 5), rpl("/v", "1", 5), rpl("/z", "", 5), rpl("/o/k", false, 6), rpl("/e", 0.0, 6), rpl("/l", "", 6)},
			targets: []string{"", "/v", "/z", "/o", "/e", "/l"},
		},
		{name: "times",
			doc: obj("a", num(1, -1), "b", num(2, big), "c", boo(true, 0)),
			batches: [][]Op{
				{rpl("/a", 2.0, big+1)},
				{rpl("/a", 3.0, big)},
				{rpl("/b", 4.0, 0), rpl("/c", false, -1)},
				{rpl("/a", 5.0, math.MaxInt64)},
				{rpl("/c", true, math.MinInt64)},
				{rpl("/b", 6.0, -5)},
			},
			sets:    []Op{rpl("/a", 2, 0), rpl("/b", 4.0, math.MaxInt64-1)},
			targets: []string{"", "/a", "/b", "/c"},
		},
		{name: "unordered",
			doc: obj("a", num(1, 5), "b", obj("c", str("x", 5))),
			batches: [][]Op{
				{rpl("/a", 2.0, 9)},
				{rpl("/a", 3.0, 7), rpl("/a", 1.0, 8)},
				{rpl("/b/c", "y", 6)},
				{rpl("/b/c", "z", 6), rpl("/a", 2.0, 7)},
				{rem("/a", 8)},
			},
			sets:    []Op{rpl("/a", 4, 7), rpl("/b/c", "x", 1)},
			targets: []string{"", "/a", "/b"},
		},
		{name: "near", // values and keys that differ by little
			doc: obj("a", num(0.1, 1), "A", num(16777217, 1), "b", str("x", 2), "B", str("x", 2)),
			batches: [][]Op{
				{rpl("/a", 0.1+1e-9, 2)},
				{rpl("/a", 0.10000000149011612, 3)},
				{rpl("/A", 16777216, 3), rpl("/A", 16777217, 4)},
				{rpl("/b", "x", 3), rpl("/b", "X", 3), rpl("/B", "x ", 3)},
				{rpl("/b", "x ", 4), add("/ a", 0.1, 4)},
				{rem("/B", 5)},
			},
			sets:    []Op{rpl("/a", 0.1, 3), rpl("/a", 0.10000000149011612, 4), rpl("/b", "X", 4), rpl("/B", " x", 5), rpl("/A", 16777216, 5)},
			targets: []string{"", "/a", "/A", "/b", "/B", "/ a"},
		},
		{name: "wide", // many elements and levels
			doc: obj("l", arr(num(0, 1), num(1, 1), num(2, 1), num(3, 1), num(4, 1), num(5, 1), num(6, 1), num(7, 1), num(8, 1), num(9, 1), num(10, 1), num(11, 1), num(12, 1)),
				"d", obj("e", obj("f", obj("g", obj("h", obj("i", num(1, 1), "j", obj("k", obj("m", num(1, 1))))))))),
			batches: [][]Op{
				{rem("/l/10", 2)},
				{rpl("/l/11", 11.0, 3), rpl("/l/1", 1.0, 3)},
				{add("/l/10", 10.0, 4)},
				{rem("/l/11", 3), rpl("/d/e/f/g/h/i", 1.0, 4)},
				{rpl("/d/e/f/g/h/j/k/m", 1.0, 2), rpl("/d/e/f/g/h/i", 2.0, 3)},
				{rem("/d/e/f/g/h/j/k", 5)},
			},
			sets:    []Op{rpl("/l/12", 12, 4), rpl("/d/e/f/g/h/j/k/m", 2, 4), rpl("/l/10", 11, 6), rpl("/l/13", 1, 4)},
			targets: []string{"", "/l", "/l/1", "/l/10", "/l/11", "/d/e/f/g/h/i", "/d/e/f/g/h/j", "/d/e/f/g/h/j/k/m"},
		},
		{name: "root",
			doc: num(1, 1),
			batches: [][]Op{
				{rpl("", 1.0, 2)},
				{rpl("", "x", 3)},
				{add("", false, 2)},
			},
			sets:    []Op{rpl("", 1, 4), rpl("", "x", 5), rpl("/a", 1, 2)},
			targets: []string{""},
		},
		{name: "toparray",
			doc: arr(num(1, 1), obj("a", str("x", 2)), null),
			batches: [][]Op{
				{rpl("/0", 2.0, 2)},
				{rem("/0", 3)},
				{rpl("/1/a", "x", 3), add("/2/b", 5.0, 4)},
				{add("/3", true, 4)},
			},
			sets:    []Op{rpl("/0", 1, 4), rpl("0", 2, 5), rpl("/x", 1, 4)},
			targets: []string{"", "/0", "/1", "/1/a"},
		},
	}
}

func worldNamed(names ...string) []world {
	var out []world
	for _, n := range names {
		for _, w := range worlds() {
			if w.name == n {
				out = append(out, w)
			}
		}
	}
	if len(out) != len(names) {
		panic("harness: world")
	}
	return out
}

// enabled are the batches which can be applied now.
func (w *world) enabled(s *sess) [][]Op {
	var out [][]Op
	for _, b := range w.batches {
		if _, v := refPatch(s.m.cur, b); v == vOK {
			out = append(out, b)
		}
	}
	return out
}

func (w *world) setsEnabled(s *sess) []Op {
	var out []Op
	for _, op := range w.sets {
		if _, v := memoOp(s.m.cur, op); v != vGray {
			out = append(out, op)
		}
	}
	return out
}
