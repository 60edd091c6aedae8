package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
)

// C34: what the readers of the two JSON forms accept. The grammar of JSON
// itself is that of the standard library; what the forms make of it is decided
// by the reference below.

// compatRef reads the JSON form that keeps timestamps.
func compatRef(j any) (*N, verdict) {
	switch v := j.(type) {
	case nil:
		return null, vOK
	case []any:
		n, all := arr(), vOK
		for _, x := range v {
			e, w := compatRef(x)
			n.a = append(n.a, e)
			all = worse(all, w)
		}
		return n, all
	case map[string]any:
		value, ok1 := v["value"]
		ts, ok2 := v["timestamp"].(json.Number)
		if ok1 && ok2 && len(v) == 2 {
			return compatLeaf(value, string(ts))
		}
		n, all := obj(), vOK
		for k, x := range v {
			e, w := compatRef(x)
			n.o[k] = e
			all = worse(all, w)
		}
		return n, all
	}
	return nil, vErr // a bare string, number or truth value
}

func worse(a, b verdict) verdict {
	switch {
	case a == vErr || b == vErr:
		return vErr
	case a == vGray || b == vGray:
		return vGray
	}
	return vOK
}

func compatLeaf(value any, ts string) (*N, verdict) {
	t, err := strconv.ParseInt(ts, 10, 64)
	if err != nil {
		f, err := strconv.ParseFloat(ts, 64)
		switch {
		case err != nil || f >= math.MaxInt64 || f < math.MinInt64:
			return nil, vErr // cannot be held
		case f != math.Trunc(f) || math.Abs(f) > 1<<53:
			return nil, vGray // no whole number, or not exactly
		}
		t = int64(f)
	}
	switch v := value.(type) {
	case string:
		return str(v, t), vOK
	case bool:
		return boo(v, t), vOK
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return nil, vErr
		}
		return num(f, t), vOK
	}
	return nil, vGray // a leaf of no value that could have a timestamp
}

// inRange: no number beyond what can be held
func inRange(j any) bool {
	switch v := j.(type) {
	case json.Number:
		_, err := strconv.ParseFloat(string(v), 64)
		return err == nil
	case []any:
		for _, x := range v {
			if !inRange(x) {
				return false
			}
		}
	case map[string]any:
		for _, x := range v {
			if !inRange(x) {
				return false
			}
		}
	}
	return true
}

func toFloats(j any) any {
	switch v := j.(type) {
	case json.Number:
		f, _ := strconv.ParseFloat(string(v), 64)
		return f
	case []any:
		out := make([]any, len(v))
		for i, x := range v {
			out[i] = toFloats(x)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, x := range v {
			out[k] = toFloats(x)
		}
		return out
	}
	return j
}

// readers checks both readers on a text.
func readers(c *Ctx, text string) verdict {
	var j any
	valid := json.Valid([]byte(text))
	if valid {
		d := json.NewDecoder(strings.NewReader(text))
		d.UseNumber()
		if err := d.Decode(&j); err != nil {
			panic("harness: " + err.Error())
		}
		valid = inRange(j)
	}
	want, v := (*N)(nil), vErr
	if valid {
		want, v = compatRef(j)
	}
	read := func(how string, f func([]byte, *tson.Tson) error, want *N, v verdict) {
		in := []byte(text)
		var t tson.Tson
		c.Step()
		err := f(in, &t)
		if string(in) != text {
			c.Failf("%s modifies the text %s", how, head(text, 400))
		}
		switch {
		case v == vGray:
		case v == vErr && err == nil:
			c.Failf("%s accepts %s as %s", how, head(text, 400), fromT(t))
		case v == vOK && err != nil:
			c.Failf("%s of %s fails: %v", how, head(text, 400), err)
		case v == vOK && !sameDoc(t, want):
			c.Failf("%s of %s gives %s, not %s", how, head(text, 400), head(fromT(t).String(), 400), head(want.String(), 400))
		case v == vOK:
			// the document does not live in the caller's bytes
			for i := range in {
				in[i] = '#'
			}
			if !sameDoc(t, want) {
				c.Failf("the document %s gave for %s changes with the caller's bytes", how, head(text, 400))
			}
		}
	}
	read("FromCompatibleTsonBytes", tson.FromCompatibleTsonBytes, want, v)
	plain := vErr
	var fromPlain *N
	if valid {
		plain, fromPlain = vOK, fromJ(toFloats(j))
	}
	read("FromJsonBytes", tson.FromJsonBytes, fromPlain, plain)
	return v
}

var jsonTimes = []string{"5", "0", "-1", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1700000000000000001", "1e3", "5.0", "12E+2", "250e-1", "-2.0",
	"1.5", "1e18", "9223372036854775808", "-9223372036854775809", "1e19", "-1e19", "1e300", "1e400", "18446744073709551615", `"5"`, "true", "null", "[]", "{}", `{"value":1,"timestamp":2}`, "05", "+5", "0x5", "<5>", ""}

// jsonPiece chooses a JSON text, mostly of forms close to that of a leaf.
func (c *Ctx) jsonPiece(fuel *int) string {
	*fuel--
	bare := []string{`{"value":1,"timestamp":5}`, "5", `"s"`, "true", "null", `{"timestamp":7,"value":"s"}`, "{\n \"value\" : false ,\t\"timestamp\" : -1 }", `{"value":2}`, `{"timestamp":3}`,
		`{"value":1,"timestamp":"5"}`, `{"value":1,"timestamp":5,"x":null}`, `{"Value":1,"timestamp":5}`}
	k := c.Choose(len(bare) + 2)
	if k < len(bare) {
		return bare[k]
	}
	var parts []string
	if k == len(bare) {
		for len(parts) < 3 && *fuel > 0 && c.Bool() {
			parts = append(parts, c.jsonPiece(fuel))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	for _, key := range []string{"value", "timestamp", "k"} {
		if *fuel > 0 && c.Bool() {
			parts = append(parts, `"`+key+`":`+c.jsonPiece(fuel))
		}
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func init() {
	register(&Prop{ID: "C34", Assumptions: []string{
		"text is valid UTF-8 without repeated keys, numbers are not minus zero",
		"a leaf whose value is null, an array or an object, and one whose timestamp is no whole number, may be read as anything or refused",
	}, Families: func(tier string) []Family {
		deeper := 0
		if tier == "thorough" {
			deeper = 1
		}
		frames := []string{"%s", "[%s]", `{"k":%s}`, `[null,{"a":{"value":1,"timestamp":1},"b":[%s]}]`, `{"value":%s,"timestamp":{"value":1,"timestamp":2}}`, `{"value":{"value":1,"timestamp":2},"timestamp":%s}`, `[%[1]s,%[1]s]`}
		texts := []string{`{"a":{"value":1,"timestamp":2},"b":[{"timestamp":3,"value":"x"},null]}`, `[{"k":null}, {"value":-1.5e3,"timestamp":7},{"value":true,"timestamp":-1}]`, `{"value":"\u0041","timestamp":10}`}
		return []Family{
			{Name: "pieces", Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) {
				fuel := c.Depth
				s := c.jsonPiece(&fuel)
				if readers(c, s) != vGray {
					c.State(s)
				}
			}},
			{Name: "leaves", Body: func(c *Ctx) {
				values := []string{"1", `"s"`, "true", "false", "0", "1e400", "9007199254740993", "-0.5E-3", `"\ud83d\ude00\n"`, `"` + "\u2028" + `"`, `""`, "null", "[]", "{}", `{"value":1,"timestamp":2}`, "nil", "'s'", "01", "1."}
				v, t := values[c.Choose(len(values))], jsonTimes[c.Choose(len(jsonTimes))]
				f := frames[c.Choose(len(frames))]
				for _, l := range []string{`{"value":` + v + `,"timestamp":` + t + `}`, `{"timestamp":` + t + `,"value":` + v + `}`, "{ \"timestamp\"\n:" + t + "\t,\r\n\"value\" :" + v + " } "} {
					s := strings.ReplaceAll(f, "%[1]s", "%s")
					s = strings.ReplaceAll(s, "%s", l)
					if readers(c, s) != vGray {
						c.State(s)
					}
				}
			}},
			{Name: "changes", Body: func(c *Ctx) { // every change in one place
				t := texts[c.Choose(len(texts))]
				i := c.Choose(len(t) + 1)
				readers(c, t[:i])
				readers(c, t[i:])
				readers(c, " \n"+t[:i]+"\t")
				if i == len(t) {
					for _, m := range []string{" ", "x", "}", "]", ",", "null", "\x00", "//", t} {
						readers(c, t+m)
					}
					return
				}
				for j := i + 1; j <= len(t); j++ {
					readers(c, t[:i]+t[j:])
				}
				for _, b := range strings.Split("{ } [ ] : , \" \\ 0 1 - . e E t f n v / +", " ") {
					readers(c, t[:i]+b+t[i:])
					readers(c, t[:i]+b+t[i+1:])
				}
			}},
			{Name: "tokens", Depth: 5 + deeper, Extra: 1, Body: func(c *Ctx) {
				tokens := []string{"{", "}", "[", "]", ",", ":", `"value"`, `"timestamp"`, "5", "true", "null", " "}
				s := ""
				for i := 0; i < c.Depth; i++ {
					k := c.Choose(len(tokens) + 1)
					if k == 0 {
						break
					}
					s += tokens[k-1]
				}
				readers(c, s)
				readers(c, `{"value":1,"timestamp":`+s)
			}},
			{Name: "corpus", Orders: 2, Depth: 4 + deeper, Extra: 1, Body: func(c *Ctx) { // what the writers give, laid out anew
				doc := c.doc(&alphaSmall, c.Depth)
				b, err := tson.ToCompatibleTsonBytes(doc.toT())
				if err != nil {
					c.Failf("ToCompatibleTsonBytes of %s fails: %v", doc, err)
				}
				if v := readers(c, string(b)); v != vOK {
					c.Failf("ToCompatibleTsonBytes of %s gives %s", doc, b)
				}
				var out bytes.Buffer
				if err := json.Indent(&out, b, "\r ", "\t"); err == nil {
					readers(c, out.String())
				}
			}},
			{Name: "scale", Weight: 2, Limit: 1 << 40, Body: func(c *Ctx) {
				shape, n := c.size(4, nil)
				s := ""
				switch shape {
				case 0:
					s = strings.Repeat("[", n) + `{"value":1,"timestamp":5}` + strings.Repeat("]", n)
				case 1:
					s = strings.Repeat(`{"value":`, n) + `{"timestamp":5,"value":"x"}` + strings.Repeat("}", n)
				case 2:
					var l []string
					for i := range n {
						l = append(l, fmt.Sprintf(`{"timestamp":%d,"value":"%d"}`, i, i))
					}
					s = "[" + strings.Join(l, ", ") + "]"
				case 3:
					s = strings.Repeat(" \n", n) + `{"value":"` + strings.Repeat(`\u0041`, n) + `","timestamp":5}` + strings.Repeat("\t", n)
				}
				c.Log("shape %d of size %d", shape, n)
				if v := readers(c, s); v != vOK {
					panic("harness: a large text that is no document")
				}
				readers(c, s[:len(s)-1])
				readers(c, s[1:])
				readers(c, strings.Replace(s, "5", "5e40", 1))
			}},
			{Name: "go-values", Body: func(c *Ctx) { // plain JSON given as any value with a JSON form
				type point struct {
					X int     `json:"x"`
					Y []uint8 `json:"y,omitempty"`
					Z *string `json:"z"`
				}
				word := "w"
				values := []any{1, int64(-5), uint8(7), float32(0.5), json.Number("12"), []string{"a", "b"}, []int{1, 2}, map[string]int{"k": 3}, map[string]string{"value": "a", "timestamp": "b"},
					map[string]int{"value": 1, "timestamp": 2}, point{}, &point{X: 2, Z: &word}, []point{{X: 1}}, json.RawMessage(`{"a":[1,"x",null]}`), map[string]any{"a": []int{1}, "b": point{Z: &word}}, []any{1, "x", []bool{true}}, &word, (*point)(nil), [2]bool{true}}
				x := values[c.Choose(len(values))]
				c.Log("FromJson of %#v", x)
				b, err := json.Marshal(x)
				if err != nil {
					panic("harness: " + err.Error())
				}
				var j any
				json.Unmarshal(b, &j)
				var t tson.Tson
				c.Step()
				if err := tson.FromJson(x, &t); err != nil || !sameDoc(t, fromJ(j)) {
					c.Failf("FromJson of the value %s gives %v %s", b, err, fromT(t))
				}
			}},
		}
	}})
}
