package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// The reference model. A document is an immutable tree; operations build new
// trees. It shares no code with the checked packages (only their data types).

type N struct {
	k  byte // o a s n b z
	o  map[string]*N
	a  []*N
	s  string
	f  float64
	b  bool
	ts int64
}

var null = &N{k: 'z'}

func str(s string, ts int64) *N  { return &N{k: 's', s: s, ts: ts} }
func num(f float64, ts int64) *N { return &N{k: 'n', f: f, ts: ts} }
func boo(b bool, ts int64) *N    { return &N{k: 'b', b: b, ts: ts} }
func arr(a ...*N) *N             { return &N{k: 'a', a: a} }
func obj(kv ...any) *N {
	n := &N{k: 'o', o: map[string]*N{}}
	for i := 0; i < len(kv); i += 2 {
		n.o[kv[i].(string)] = kv[i+1].(*N)
	}
	return n
}

func (n *N) leaf() bool { return n.k == 's' || n.k == 'n' || n.k == 'b' }

func (n *N) keys() []string {
	ks := make([]string, 0, len(n.o))
	for k := range n.o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// toT builds a fresh document of the checked type.
func (n *N) toT() tson.Tson {
	switch n.k {
	case 'o':
		o := tson.Object{}
		for k, v := range n.o {
			o[k] = v.toT()
		}
		return o
	case 'a':
		a := tson.Array{}
		for _, v := range n.a {
			a = append(a, v.toT())
		}
		return a
	case 's':
		return tson.Leaf[string]{Value: n.s, Timestamp: n.ts}
	case 'n':
		return tson.Leaf[float64]{Value: n.f, Timestamp: n.ts}
	case 'b':
		return tson.Leaf[bool]{Value: n.b, Timestamp: n.ts}
	}
	return nil
}

// fromT reads a document; an unknown type gives an odd node, which is unequal
// to every node of the model.
func fromT(t any) *N {
	switch v := t.(type) {
	case nil:
		return null
	case tson.Object:
		n := &N{k: 'o', o: map[string]*N{}}
		for k, x := range v {
			n.o[k] = fromT(x)
		}
		return n
	case tson.Array:
		n := &N{k: 'a'}
		for _, x := range v {
			n.a = append(n.a, fromT(x))
		}
		return n
	case tson.Leaf[string]:
		return str(v.Value, v.Timestamp)
	case tson.Leaf[float64]:
		return num(v.Value, v.Timestamp)
	case tson.Leaf[bool]:
		return boo(v.Value, v.Timestamp)
	}
	return &N{k: '?', s: fmt.Sprintf("%T %v", t, t)}
}

// fromJ reads a plain JSON value (leaves without timestamp).
func fromJ(j any) *N {
	switch v := j.(type) {
	case nil:
		return null
	case map[string]any:
		n := &N{k: 'o', o: map[string]*N{}}
		for k, x := range v {
			n.o[k] = fromJ(x)
		}
		return n
	case []any:
		n := &N{k: 'a'}
		for _, x := range v {
			n.a = append(n.a, fromJ(x))
		}
		return n
	case string:
		return str(v, -1)
	case float64:
		return num(v, -1)
	case int:
		return num(float64(v), -1)
	case bool:
		return boo(v, -1)
	}
	return &N{k: '?', s: fmt.Sprintf("%T %v", j, j)}
}

func (n *N) toJ() any {
	switch n.k {
	case 'o':
		o := map[string]any{}
		for k, v := range n.o {
			o[k] = v.toJ()
		}
		return o
	case 'a':
		a := []any{}
		for _, v := range n.a {
			a = append(a, v.toJ())
		}
		return a
	case 's':
		return n.s
	case 'n':
		return n.f
	case 'b':
		return n.b
	}
	return nil
}

// write renders a canonical form; ts false leaves out the timestamps.
func (n *N) write(b *strings.Builder, ts bool) {
	switch n.k {
	case 'o':
		b.WriteByte('{')
		for i, k := range n.keys() {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			n.o[k].write(b, ts)
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for i, v := range n.a {
			if i > 0 {
				b.WriteByte(',')
			}
			v.write(b, ts)
		}
		b.WriteByte(']')
	case 's':
		b.WriteString(strconv.Quote(n.s))
	case 'n':
		b.WriteString(strconv.FormatFloat(n.f, 'g', -1, 64))
		if n.f == 0 && math.Signbit(n.f) {
			b.WriteString("(neg)")
		}
	case 'b':
		b.WriteString(strconv.FormatBool(n.b))
	case 'z':
		b.WriteString("null")
	default:
		b.WriteString("<?" + n.s + ">")
	}
	if ts && n.leaf() {
		b.WriteByte('@')
		b.WriteString(strconv.FormatInt(n.ts, 10))
	}
}

func (n *N) String() string { return n.key(true) }

func (n *N) key(ts bool) string {
	var b strings.Builder
	n.write(&b, ts)
	return b.String()
}

func eq(a, b *N) bool { return eqn(a, b, true) }

func eqn(a, b *N, ts bool) bool {
	if a == b {
		return true
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case 'o':
		if len(a.o) != len(b.o) {
			return false
		}
		for k, v := range a.o {
			w, ok := b.o[k]
			if !ok || !eqn(v, w, ts) {
				return false
			}
		}
		return true
	case 'a':
		if len(a.a) != len(b.a) {
			return false
		}
		for i := range a.a {
			if !eqn(a.a[i], b.a[i], ts) {
				return false
			}
		}
		return true
	case 'z':
		return true
	case 's':
		return a.s == b.s && (!ts || a.ts == b.ts)
	case 'n':
		return a.f == b.f && (!ts || a.ts == b.ts)
	case 'b':
		return a.b == b.b && (!ts || a.ts == b.ts)
	}
	return false
}

// latest is the reference for GetLatestTimestamp.
func (n *N) latest() int64 {
	switch n.k {
	case 'z':
		return -1
	case 'o':
		m := int64(0)
		for _, v := range n.o {
			m = max(m, v.latest())
		}
		return m
	case 'a':
		m := int64(0)
		for _, v := range n.a {
			m = max(m, v.latest())
		}
		return m
	}
	return n.ts
}

// splitPath is the reference for path resolution.
func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	var parts []string
	cut := func(sep string) {
		cur := ""
		for i := 0; i < len(p); i++ {
			if strings.IndexByte(sep, p[i]) >= 0 {
				parts = append(parts, cur)
				cur = ""
				continue
			}
			if p[i] == '~' && i+1 < len(p) && (p[i+1] == '0' || p[i+1] == '1') {
				if p[i+1] == '0' {
					cur += "~"
				} else {
					cur += "/"
				}
				i++
				continue
			}
			cur += string(p[i : i+1])
		}
		parts = append(parts, cur)
	}
	if p[0] == '/' {
		p = p[1:]
		cut("/")
	} else {
		cut("./")
	}
	return parts
}

func pointer(parts []string) string {
	var b strings.Builder
	for _, p := range parts {
		b.WriteByte('/')
		for i := 0; i < len(p); i++ {
			switch p[i] {
			case '~':
				b.WriteString("~0")
			case '/':
				b.WriteString("~1")
			default:
				b.WriteByte(p[i])
			}
		}
	}
	return b.String()
}

// index: 0,1,2,… ; oddIndex: spellings the property does not define
func index(s string) (int, bool) {
	if s == "" || len(s) > 9 || (len(s) > 1 && s[0] == '0') {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, true
}

func oddIndex(s string) bool {
	if _, ok := index(s); ok {
		return false
	}
	n, err := strconv.Atoi(s)
	return err == nil && (n >= 0 || s[0] != '-' || n == 0) || len(s) > 9 && strings.Trim(s, "0123456789") == ""
}

// get is the reference for GetValue. gray: the property does not define it.
func (n *N) get(parts []string) (v *N, ok, gray bool) {
	for _, p := range parts {
		switch n.k {
		case 'o':
			w, has := n.o[p]
			if !has {
				return nil, false, false
			}
			n = w
		case 'a':
			i, isIdx := index(p)
			if !isIdx {
				return nil, false, oddIndex(p)
			}
			if i >= len(n.a) {
				return nil, false, false
			}
			n = n.a[i]
		default:
			return nil, false, false
		}
	}
	return n, true, false
}

type verdict int

const (
	vOK verdict = iota
	vErr
	vGray
)

func (v verdict) String() string { return [...]string{"ok", "error", "undefined"}[v] }

func leafOf(value any, ts int64) (*N, verdict) {
	switch v := value.(type) {
	case string:
		return str(v, ts), vOK
	case float64:
		return num(v, ts), vOK
	case int:
		return num(float64(v), ts), vOK
	case bool:
		return boo(v, ts), vOK
	case nil, map[string]any, []any, tson.Object, tson.Array:
		return nil, vErr
	}
	return nil, vGray
}

// refOp applies one operation to a document.
func refOp(n *N, op tsonpatch.Operation) (*N, verdict) {
	switch op.Op {
	case "add", "replace":
		l, v := leafOf(op.Value, op.Timestamp)
		if v != vOK {
			return nil, v
		}
		return refSet(n, splitPath(op.Path), l)
	case "remove":
		parts := splitPath(op.Path)
		if len(parts) == 0 {
			return nil, vErr
		}
		return refRemove(n, parts)
	}
	return nil, vErr
}

func refSet(n *N, parts []string, l *N) (*N, verdict) {
	if len(parts) == 0 {
		return l, vOK
	}
	p := parts[0]
	child := func(c *N) (*N, verdict) {
		if len(parts) == 1 {
			return l, vOK
		}
		if c == nil || c.k == 'z' { // create the missing parent
			if oddIndex(parts[1]) {
				return nil, vGray
			}
			if _, isIdx := index(parts[1]); isIdx {
				c = arr()
			} else {
				c = obj()
			}
		}
		return refSet(c, parts[1:], l)
	}
	switch n.k {
	case 'o':
		c, v := child(n.o[p])
		if v != vOK {
			return nil, v
		}
		return n.withKey(p, c), vOK
	case 'a':
		i, isIdx := index(p)
		if !isIdx {
			if oddIndex(p) {
				return nil, vGray
			}
			return nil, vErr
		}
		if i > 5000 {
			return nil, vGray
		}
		var old *N
		if i < len(n.a) {
			old = n.a[i]
		}
		c, v := child(old)
		if v != vOK {
			return nil, v
		}
		a := append([]*N{}, n.a...)
		for len(a) <= i {
			a = append(a, null)
		}
		a[i] = c
		return arr(a...), vOK
	case 'z':
		return nil, vGray // a path below a document that is null
	}
	return nil, vErr
}

func refRemove(n *N, parts []string) (*N, verdict) {
	p := parts[0]
	switch n.k {
	case 'o':
		if len(parts) == 1 {
			return n.withKey(p, nil), vOK
		}
		c, has := n.o[p]
		if !has || c.k == 'z' {
			return nil, vErr
		}
		c, v := refRemove(c, parts[1:])
		if v != vOK {
			return nil, v
		}
		return n.withKey(p, c), vOK
	case 'a':
		i, isIdx := index(p)
		if !isIdx {
			if oddIndex(p) {
				return nil, vGray
			}
			return nil, vErr
		}
		if i >= len(n.a) {
			return nil, vErr
		}
		a := append([]*N{}, n.a...)
		if len(parts) == 1 {
			return arr(append(a[:i], a[i+1:]...)...), vOK
		}
		if a[i].k == 'z' {
			return nil, vErr
		}
		c, v := refRemove(a[i], parts[1:])
		if v != vOK {
			return nil, v
		}
		a[i] = c
		return arr(a...), vOK
	}
	return nil, vErr
}

func (n *N) withKey(k string, v *N) *N {
	m := &N{k: 'o', o: make(map[string]*N, len(n.o)+1)}
	for kk, vv := range n.o {
		m.o[kk] = vv
	}
	if v == nil {
		delete(m.o, k)
	} else {
		m.o[k] = v
	}
	return m
}

func refPatch(n *N, ops []tsonpatch.Operation) (*N, verdict) {
	for _, op := range ops {
		var v verdict
		if n, v = memoOp(n, op); v != vOK {
			return nil, v
		}
	}
	return n, vOK
}

// Results of the model are remembered in explorations of small documents,
// and equal documents are made the same.
type memoKey struct {
	n  *N
	op Op
}
type memoRes struct {
	n *N
	v verdict
}

var (
	memoOn bool
	memo   = map[memoKey]memoRes{}
	intern = map[string]*N{}
)

func memoOp(n *N, op Op) (*N, verdict) {
	if !memoOn {
		return refOp(n, op)
	}
	switch op.Value.(type) {
	case nil, string, float64, int, bool:
	default:
		return refOp(n, op)
	}
	k := memoKey{n, op}
	if r, ok := memo[k]; ok {
		return r.n, r.v
	}
	m, v := refOp(n, op)
	if v == vOK {
		s := m.String()
		if same, ok := intern[s]; ok {
			m = same
		} else {
			intern[s] = m
		}
	}
	if len(memo) > 500000 {
		clear(memo)
		clear(intern)
	}
	memo[k] = memoRes{m, v}
	return m, v
}

type Op = tsonpatch.Operation

// normal removes what JSON cannot tell apart.
func normal(op Op) Op {
	if i, ok := op.Value.(int); ok {
		op.Value = float64(i)
	}
	return op
}

func sameOp(a, b Op) bool {
	a, b = normal(a), normal(b)
	return a.Op == b.Op && a.Path == b.Path && sameValue(a.Value, b.Value) && a.Timestamp == b.Timestamp
}

func sameValue(a, b any) bool {
	if i, ok := a.(int); ok {
		a = float64(i)
	}
	if i, ok := b.(int); ok {
		b = float64(i)
	}
	switch a.(type) {
	case nil, string, float64, bool:
		switch b.(type) {
		case nil, string, float64, bool:
			return a == b
		}
		return false
	}
	return fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
}

func sameOps(a, b []Op) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameOp(a[i], b[i]) {
			return false
		}
	}
	return true
}

func opStr(op Op) string {
	if op.Op == "remove" && op.Value == nil {
		return fmt.Sprintf("remove %q @%d", op.Path, op.Timestamp)
	}
	return fmt.Sprintf("%s %q=%#v @%d", op.Op, op.Path, asFloat(op.Value), op.Timestamp)
}

// asFloat gives the integers in a value the type that numbers are read as.
func asFloat(v any) any {
	switch v := v.(type) {
	case []any:
		out := make([]any, len(v))
		for i := range v {
			out[i] = asFloat(v[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k := range v {
			out[k] = asFloat(v[k])
		}
		return out
	}
	switch r := reflect.ValueOf(v); {
	case r.CanInt():
		return float64(r.Int())
	case r.CanUint():
		return float64(r.Uint())
	}
	return v
}

func opsStr(ops []Op) string {
	if len(ops) > 40 {
		return opsStr(ops[:20]) + fmt.Sprintf(" … (%d)", len(ops))
	}
	s := make([]string, len(ops))
	for i := range ops {
		s[i] = opStr(ops[i])
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func add(path string, v any, ts int64) Op { return Op{Op: "add", Path: path, Value: v, Timestamp: ts} }
func rpl(path string, v any, ts int64) Op {
	return Op{Op: "replace", Path: path, Value: v, Timestamp: ts}
}
func rem(path string, ts int64) Op { return Op{Op: "remove", Path: path, Timestamp: ts} }

// catch runs f and returns what it panicked with; the checker's own panics
// and the step limit pass through.
func catch(f func()) (r any) {
	defer func() {
		r = recover()
		switch r.(type) {
		case skipped, pruned, failed, stepLimit:
			panic(r)
		case string:
			if strings.HasPrefix(r.(string), "harness:") {
				panic(r)
			}
		}
	}()
	f()
	return nil
}
