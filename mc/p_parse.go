package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
)

// The reference parser of the documented grammar, with timestamps after keys,
// before array elements or after values. Three outcomes: the text is well
// formed and has this value; it is not; or the documentation leaves it open
// (then only termination without a crash is checked).

type refParser struct {
	s    string
	i    int
	gray bool
	over bool // a number or timestamp that does not fit
}

type refReject struct{ atEnd bool }

func (p *refParser) reject() { panic(refReject{p.i >= len(p.s)}) }

// refParse: atEnd tells that a longer text may still be well formed.
func refParse(s string) (n *N, v verdict, atEnd bool) {
	p := &refParser{s: s}
	defer func() {
		if r := recover(); r != nil {
			rej, ok := r.(refReject)
			if !ok {
				panic(r)
			}
			n, v, atEnd = nil, vErr, rej.atEnd
			if p.gray {
				v = vGray
			}
		}
	}()
	n = p.value(false)
	p.ws()
	if p.i < len(p.s) {
		p.reject()
	}
	if p.gray {
		return nil, vGray, true
	}
	if p.over {
		return nil, vErr, true
	}
	return n, vOK, true
}

func (p *refParser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\n\r", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *refParser) at() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *refParser) need(b byte) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != b {
		p.reject()
	}
	p.i++
}

func (p *refParser) has(b byte) bool {
	p.ws()
	return p.i < len(p.s) && p.s[p.i] == b
}

func (p *refParser) time() int64 {
	p.need('<')
	if p.at() == ' ' || p.at() == '\t' || p.at() == '\n' || p.at() == '\r' {
		p.gray = true
		p.ws()
	}
	start := p.i
	for p.at() >= '0' && p.at() <= '9' {
		p.i++
	}
	d := p.s[start:p.i]
	if p.at() == ' ' || p.at() == '\t' || p.at() == '\n' || p.at() == '\r' {
		p.gray = true
		p.ws()
	}
	if p.i >= len(p.s) || p.s[p.i] != '>' {
		p.reject()
	}
	p.i++
	if d == "" {
		return -1
	}
	t, err := strconv.ParseInt(d, 10, 64)
	if len(d) > 1 && d[0] == '0' {
		p.gray = true
	}
	p.over = p.over || err != nil
	return t
}

// value: inArray allows a timestamp before the value.
func (p *refParser) value(inArray bool) *N {
	p.ws()
	ts := int64(-1)
	before := false
	if p.at() == '<' {
		if !inArray {
			p.gray = true
		}
		ts = p.time()
		before = true
		p.ws()
		if p.at() == '<' {
			p.gray = true
			p.time()
			p.ws()
		}
	}
	var n *N
	switch c := p.at(); {
	case p.i >= len(p.s):
		p.reject()
	case c == '{':
		if before {
			p.gray = true
		}
		return p.object()
	case c == '[':
		if before {
			p.gray = true
		}
		p.i++
		n = arr()
		if p.has(']') {
			p.i++
			return n
		}
		for {
			n.a = append(n.a, p.value(true))
			if p.has(',') {
				p.i++
				continue
			}
			p.need(']')
			return n
		}
	case c == '"':
		n = str(p.str(), -1)
	case c == '-' || c >= '0' && c <= '9':
		n = num(p.num(), -1)
	default:
		switch {
		case p.word("true"):
			n = boo(true, -1)
		case p.word("false"):
			n = boo(false, -1)
		case p.word("null"):
			if before {
				p.gray = true
			}
			return null
		}
	}
	p.ws()
	if p.at() == '<' {
		t := p.time()
		if before {
			p.gray = true
		}
		ts = t
	}
	m := *n
	m.ts = ts
	return &m
}

func (p *refParser) word(w string) bool {
	rest := p.s[p.i:]
	if strings.HasPrefix(rest, w) {
		p.i += len(w)
		return true
	}
	if strings.HasPrefix(w, rest) {
		p.i = len(p.s)
		p.reject()
	}
	if w == "null" {
		p.reject()
	}
	return false
}

func (p *refParser) object() *N {
	p.i++
	n := obj()
	if p.has('}') {
		p.i++
		return n
	}
	for {
		p.ws()
		if p.at() != '"' {
			p.reject()
		}
		k := p.str()
		ts := int64(-1)
		has := p.has('<')
		if has {
			ts = p.time()
		}
		p.need(':')
		v := p.value(false)
		if has && v.leaf() {
			if v.ts != -1 || strings.HasSuffix(strings.TrimRight(p.s[:p.i], " \t\r\n"), ">") {
				p.gray = true // two timestamps
			}
			m := *v
			m.ts = ts
			v = &m
		}
		if n.o[k] != nil {
			p.gray = true
		}
		n.o[k] = v
		if p.has(',') {
			p.i++
			continue
		}
		p.need('}')
		return n
	}
}

func (p *refParser) num() float64 {
	start := p.i
	digits := func() int {
		n := 0
		for p.at() >= '0' && p.at() <= '9' {
			p.i++
			n++
		}
		return n
	}
	if p.at() == '-' {
		p.i++
	}
	lead := p.i
	whole := digits()
	if whole == 0 && p.at() != '.' {
		p.reject()
	}
	if whole > 1 && p.s[lead] == '0' {
		p.gray = true
	}
	if p.at() == '.' {
		p.i++
		if frac := digits(); frac == 0 {
			if p.i >= len(p.s) && whole == 0 {
				p.reject()
			}
			p.gray = true
		}
		if whole == 0 {
			p.gray = true
		}
	}
	if p.at() == 'e' || p.at() == 'E' {
		p.i++
		if p.at() == '+' || p.at() == '-' {
			p.i++
		}
		if digits() == 0 {
			p.reject()
		}
	}
	f, err := strconv.ParseFloat(p.s[start:p.i], 64)
	p.over = p.over || math.IsInf(f, 0)
	if err != nil && !p.over || f == 0 && p.s[start] == '-' {
		p.gray = true
	}
	return f
}

func (p *refParser) str() string {
	p.i++
	var b []byte
	for {
		if p.i >= len(p.s) {
			p.reject()
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(b)
		case c < 0x20:
			p.gray = true
			b = append(b, c)
		case c != '\\':
			b = append(b, c)
			if c >= 0x80 {
				r, n := utf8.DecodeRuneInString(p.s[p.i-1:])
				if r == utf8.RuneError && n == 1 {
					p.gray = true
					continue
				}
				b = append(b, p.s[p.i:p.i+n-1]...)
				p.i += n - 1
			}
		default:
			if p.i >= len(p.s) {
				p.reject()
			}
			e := p.s[p.i]
			p.i++
			if k := strings.IndexByte(`"\/bfnrtav`, e); k >= 0 {
				b = append(b, "\"\\/\b\f\n\r\t\a\v"[k])
				continue
			}
			switch e {
			case '\'':
				p.gray = true
			case 'x':
				b = append(b, byte(p.hex(2)))
			case 'u', 'U':
				size := 4
				if e == 'U' {
					size = 8
				}
				r := p.hex(size)
				if r >= 0xd800 && r < 0xe000 {
					rest := p.s[p.i:]
					if e == 'u' && r < 0xdc00 && len(rest) >= 6 && rest[0] == '\\' && rest[1] == 'u' {
						p.i += 2
						if low := p.hex(4); low >= 0xdc00 && low < 0xe000 {
							b = utf8.AppendRune(b, rune((r-0xd800)<<10|(low-0xdc00))+0x10000)
							continue
						}
					}
					p.gray = true
				} else if r > utf8.MaxRune {
					p.gray = true
				} else {
					b = utf8.AppendRune(b, rune(r))
				}
			default:
				p.i--
				p.reject()
			}
		}
	}
}

func (p *refParser) hex(n int) uint32 {
	v := uint32(0)
	for ; n > 0; n-- {
		if p.i >= len(p.s) {
			p.reject()
		}
		k := strings.IndexByte("0123456789abcdef", p.s[p.i]|0x20)
		if k < 0 || p.s[p.i] < '0' {
			p.reject()
		}
		if p.s[p.i] >= 0x10 && p.s[p.i] < 0x20 {
			p.reject()
		}
		v = v<<4 | uint32(k)
		p.i++
	}
	return v
}

// parseCheck compares the parser with the reference on one text.
func parseCheck(c *Ctx, text string) verdict {
	want, v, _ := refParse(text)
	parseAgainst(c, text, want, v)
	return v
}

func parseAgainst(c *Ctx, text string, want *N, v verdict) {
	c.Step()
	b := []byte(text)
	var t tson.Tson
	err := tson.Unmarshal(b, &t)
	if string(b) != text {
		c.Failf("parsing modifies its input %q", head(text, 400))
	}
	switch {
	case v == vOK && err != nil:
		c.Failf("the well-formed text %q is rejected: %v", head(text, 600), err)
	case v == vOK && !sameDoc(t, want):
		c.Failf("the text %q is parsed as\n  %s, not\n  %s", head(text, 600), head(fromT(t).String(), 600), head(want.String(), 600))
	case v == vErr && err == nil:
		c.Failf("the malformed text %q is accepted as %s", head(text, 600), head(fromT(t).String(), 600))
	}
}

// writer that makes its formatting choices through the explorer
func (c *Ctx) anyText(n *N, gap func() string) string {
	var b strings.Builder
	tok := func(s string) { b.WriteString(gap()); b.WriteString(s) }
	ts := func(n *N) string {
		if n.ts < 0 {
			return "<>"
		}
		return fmt.Sprintf("<%d>", n.ts)
	}
	prim := func(n *N) {
		switch n.k {
		case 's':
			tok(strconv.Quote(n.s))
		case 'z':
			tok("null")
		case 'n':
			tok(strconv.FormatFloat(n.f, 'g', -1, 64))
		default:
			tok(fmt.Sprint(n.b))
		}
	}
	var w func(n *N, ctx byte)
	w = func(n *N, ctx byte) {
		switch n.k {
		case 'o':
			tok("{")
			for i, k := range n.keys() {
				if i > 0 {
					tok(",")
				}
				m := n.o[k]
				tok(strconv.Quote(k))
				after := 0
				if m.leaf() {
					after = c.Choose(2)
					if m.ts < 0 {
						after = c.Choose(3)
					}
					if after == 0 {
						tok(ts(m))
					}
				}
				tok(":")
				w(m, 'k')
				if after == 1 {
					tok(ts(m))
				}
			}
			tok("}")
		case 'a':
			tok("[")
			for i, m := range n.a {
				if i > 0 {
					tok(",")
				}
				after := 0
				if m.leaf() {
					after = c.Choose(2)
					if m.ts < 0 {
						after = c.Choose(3)
					}
					if after == 0 {
						tok(ts(m))
					}
				}
				w(m, 'e')
				if after == 1 {
					tok(ts(m))
				}
			}
			tok("]")
		default:
			prim(n)
			if ctx == 't' && n.leaf() && (n.ts >= 0 || c.Bool()) {
				tok(ts(n))
			}
		}
	}
	w(n, 't')
	b.WriteString(gap())
	return b.String()
}

func exampleTexts() []string {
	var out []string
	files, _ := filepath.Glob("/repo/examples/*.tson")
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil && len(b) < 3000 {
			out = append(out, string(b))
		}
	}
	for _, n := range []*N{inContext(5, num(-1.5e-7, 7)), inContext(6, str("a\n\"<5>", 12)), inContext(8, boo(false, 0)), lookupDocs()[0], inContext(2, str("é\U0001f600\x01", -1))} {
		out = append(out, text(n))
	}
	return append(out,
		`{"a" <1>: 1, "b": "x" <2>, "c": [<3> true, false <4>, null, -1.5e+3], "d" <>: {}, "e":[]}`,
		"[ [ ], { }, <12> \"\\u00e9\\ud83d\\ude00\\x41\\a\\v\", 1E5 <9223372036854775807> ]\n",
		`"top" <5>`, `null`, `-0.25 <>`, "true")
}

func init() {
	tokens := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b"`, "<5>", "<>", "1", "-2.5e1", "true", "null", "<", ">", `"`, "x"}
	byteAl := "{}[]<>:,\"\\/ \n\tabefnrtuvx'+-.0159AE" + "\x00\x1f\x7f\x80\xff\xc3\xa9"
	register(&Prop{ID: "C13", Assumptions: []string{
		"not judged, only run: raw control characters or invalid UTF-8 in strings, \\' , lone surrogates, numbers like 01, 1. or .5, white space or leading zeros inside < >, duplicate keys, more than one timestamp for a value, a timestamp before a top-level value or a container",
		"texts: all token and byte sequences up to the stated length whose proper prefixes can be continued to a well-formed text, every one-place change of the listed texts, and nesting up to 9999 levels (deeper nesting only has to end)",
	}, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		texts := exampleTexts()
		sequences := func(c *Ctx, al []string, joiner string) {
			s := ""
			for i := 0; ; i++ {
				v := vOK
				_, v, atEnd := refParse(s)
				if i == c.Depth || i > 0 && v == vErr && !atEnd {
					break // cannot be continued
				}
				k := c.Choose(len(al) + 1)
				if k == 0 {
					break
				}
				if i > 0 {
					s += joiner
				}
				s += al[k-1]
			}
			v := parseCheck(c, s)
			if v != vGray {
				c.State(s)
			}
			for _, more := range []string{" ", "\n", "x", "}", "]", ",", "<", "\"", "\x00", "1", "/"} {
				parseCheck(c, s+more)
			}
		}
		var bytesAl []string
		for i := range byteAl {
			bytesAl = append(bytesAl, byteAl[i:i+1])
		}
		return []Family{
			{Name: "tokens", Depth: 5 + deeper, Extra: 1, Body: func(c *Ctx) { sequences(c, tokens, "") }},
			{Name: "tokens-spaced", Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) { sequences(c, tokens, " \t\r\n") }},
			{Name: "bytes", Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) { sequences(c, bytesAl, "") }},
			{Name: "strings", Depth: 3 + deeper, Extra: 1, Body: func(c *Ctx) { // inside a string
				al := []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\a`, `\v`, `\x41`, `\xe9`, `\u0041`, `\u00e9`, `\uFFFD`, `\ud83d\ude00`, `\uDBFF\uDFFF`, `\U0001F600`, `\U0010ffff`,
					`\q`, `\`, `\u00`, `\x4`, `\xg1`, `\u00g1`, `\u 041`, `\U0001F6`, `\u-041`, `\x+1`, "é", "😀", "/", "<5>", ",", "a"}
				s := ""
				for i := 0; i < c.Depth; i++ {
					k := c.Choose(len(al) + 1)
					if k == 0 {
						break
					}
					s += al[k-1]
				}
				parseCheck(c, `"`+s+`"`)
				parseCheck(c, `{"`+s+`" <3>: "`+s+`"}`)
				parseCheck(c, `["`+s+`" <3>, "`+s)
			}},
			{Name: "numbers", Depth: 5 + deeper, Extra: 1, Body: func(c *Ctx) {
				al := "-+.eE0159x<>"
				s := ""
				for i := 0; i < c.Depth; i++ {
					k := c.Choose(len(al) + 1)
					if k == 0 {
						break
					}
					s += al[k-1 : k]
				}
				parseCheck(c, s)
				parseCheck(c, "["+s+"]")
				parseCheck(c, `{"a":`+s+"}")
				parseCheck(c, `{"a"`+s+":1}")
			}},
			{Name: "ranges", Orders: 2, Body: func(c *Ctx) { // numbers and timestamps at the limits
				nums := []string{"0", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309", "1e-400", "5e-324", "2e-324", "1e99999", "9007199254740993",
					"1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 309), "0." + strings.Repeat("0", 400) + "1", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "0.10000000000000001"}
				times := []string{"0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807",
					"9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999", "1" + strings.Repeat("0", 40), "-1", "-5", "1.5", "1e3", "+1"}
				v := append(nums, `"x"`, "true", "null", "{}")[c.Choose(len(nums)+4)]
				tm := times[c.Choose(len(times))]
				parseCheck(c, v+" <"+tm+">")
				parseCheck(c, "[<"+tm+">"+v+"]")
				parseCheck(c, "["+v+"<"+tm+">, 1]")
				parseCheck(c, `{"a" <`+tm+">: "+v+"}")
				parseCheck(c, `{"a": `+v+" <"+tm+">}")
				parseCheck(c, `{"a": [`+v+", "+v+"]}")
				parseCheck(c, `{"k": 1, "a": {"b": `+v+"}}")
			}},
			{Name: "layouts", Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) { // where timestamps and white space go
				doc := c.doc(&alphaTiny, c.Depth)
				gaps := []string{"", " ", "\n\t", "\r\n  "}
				mode := c.Choose(len(gaps) + 1)
				n := 0
				s := c.anyText(doc, func() string {
					n++
					if mode == len(gaps) {
						return gaps[n%len(gaps)]
					}
					return gaps[mode]
				})
				parseAgainst(c, s, doc, vOK)
				c.State(s)
			}},
			{Name: "changes", Weight: 2, Body: func(c *Ctx) { // every change in one place
				t := texts[c.Choose(len(texts))]
				if v := parseCheck(c, t); v != vOK {
					panic("harness: example is not well formed: " + t)
				}
				i := c.Choose(len(t) + 1)
				parseCheck(c, t[:i])
				if i == len(t) {
					return
				}
				parseCheck(c, t[i:])
				parseCheck(c, t[:i]+t[i+1:])
				parseCheck(c, t[:i]+t[i:i+1]+t[i:])
				for _, b := range bytesAl {
					parseCheck(c, t[:i]+b+t[i:])
					parseCheck(c, t[:i]+b+t[i+1:])
				}
				for j := i + 1; j <= len(t) && j < i+60; j++ {
					parseCheck(c, t[:i]+t[j:])
				}
			}},
			{Name: "two-changes", Depth: 1 + deeper, Body: func(c *Ctx) {
				short := []string{`{"a" <1>: 1, "b": [<2> "x", true <3>]}`, `[{"k": null}, -1.5e3 <7>, "\u0041"]`}
				t := short[c.Choose(2)]
				for k := 0; k < 1+c.Depth; k++ {
					i := c.Choose(len(t))
					b := c.Choose(20)
					switch {
					case b == 0:
						t = t[:i] + t[i+1:]
					case b < 10:
						t = t[:i] + `{}[]<>:,"`[b-1:b] + t[i:]
					default:
						t = t[:i] + `{}[]<>:,"\`[b-10:b-9] + t[i+1:]
					}
				}
				parseCheck(c, t)
			}},
			{Name: "examples", Body: func(c *Ctx) {
				files, _ := filepath.Glob("/repo/examples/*.tson")
				files = append(files, "/repo/internal/vssgen/test.tson")
				b, err := os.ReadFile(files[c.Choose(len(files))])
				if err != nil {
					return
				}
				parseCheck(c, string(b))
			}},
			deepFamily(),
			{Name: "scale", Limit: 400000000, Weight: 4, Body: func(c *Ctx) {
				n := append(append([]int{}, scaleSizes...), 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65536, 100000)
				size := n[c.Choose(len(n))]
				rep := strings.Repeat
				var s string
				var want *N
				nest := func(o, in, cl string, v *N, wrap func(*N) *N) {
					s = rep(o, size) + in + rep(cl, size)
					for i := 0; i < size; i++ {
						v = wrap(v)
					}
					want = v
				}
				shape := c.Choose(9)
				if shape > 4 && size > 1100 || shape < 2 && size > 9999 { // deeper: see "deep"
					c.Prune()
				}
				switch shape {
				case 0:
					nest("[", "<5> 1", "]", num(1, 5), func(n *N) *N { return arr(n) })
				case 1:
					nest(`{"k":`, "1 <5>", "}", num(1, 5), func(n *N) *N { return obj("k", n) })
				case 2:
					s, want = `"`+rep("a", size)+`" <5>`, str(rep("a", size), 5)
				case 3:
					s, want = rep(" \n", size)+"{"+rep("\t", size)+"}"+rep("\r", size), obj()
				case 4:
					s, want = `"`+rep(`\u00e9`, size)+`"`, str(rep("é", size), -1)
				case 5:
					want = arr()
					for i := 0; i < size; i++ {
						want.a = append(want.a, num(float64(i), int64(i)))
						s += fmt.Sprintf(",<%d> %d", i, i)
					}
					s = "[" + s[1:] + "]"
				case 6:
					want = obj()
					var b strings.Builder
					for i := 0; i < size; i++ {
						fmt.Fprintf(&b, `,"k%d" <%d>: "v"`, i, i)
						want.o[fmt.Sprintf("k%d", i)] = str("v", int64(i))
					}
					s = "{" + b.String()[1:] + "}"
				case 7:
					s = "1" + rep("0", min(size, 300)) + " <7>"
					f, _ := strconv.ParseFloat("1"+rep("0", min(size, 300)), 64)
					want = num(f, 7)
				case 8:
					s = "0." + rep("0", min(size, 300)) + "1"
					f, _ := strconv.ParseFloat(s, 64)
					want = num(f, -1)
				}
				c.Log("shape %d size %d", shape, size)
				parseAgainst(c, s, want, vOK)
				for _, k := range []int{1, 2, len(s) / 2} {
					if t := strings.TrimRight(s, " \r\n"); shape < 7 && k < len(t) {
						if shape != 0 || k <= size {
							parseAgainst(c, t[:len(t)-k], nil, []verdict{vErr, vErr, vGray, vErr, vGray, vErr, vErr}[shape])
						}
					}
				}
				parseAgainst(c, s+"x", nil, vErr)
			}},
		}
	}})
}
