//go:build zzweb

package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzrt"
	"github.com/CAU-CPSS/logument/internal/zzweb"
)

// ---- C26: the web demo --------------------------------------------------

// site is a started web demo and what its answers have to be.
type site struct {
	h        http.Handler
	cars     []int
	files    int
	docs     map[int][]*N // per car: document 1, 2, …
	requests []request
}

type request struct {
	path, car, patch string
	file             []byte  // the answer, unchanged
	doc              *N      // or the document it has to be
	right            *[]byte // an answer already found to be right
}

func (r request) url() string {
	q := url.Values{"car": {r.car}}
	if r.patch != "" {
		q.Set("patch", r.patch)
	}
	return r.path + "?" + q.Encode()
}

var carDirRe = regexp.MustCompile(`^car_(\d+)$`)

// startDemo runs the program with the arguments in the current directory.
func (c *Ctx) startDemo(catalog string, args ...string) http.Handler {
	put := func(name string, b []byte, err error) {
		if err == nil {
			os.MkdirAll(filepath.Dir(name), 0755)
			err = os.WriteFile(name, b, 0644)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	b, err := os.ReadFile("/repo/index.html")
	put("index.html", b, err)
	b = []byte(catalog)
	if catalog == "" {
		b, err = os.ReadFile(repoCatalog)
	}
	put("internal/vssgen/vss.json", b, err)
	oldArgs, oldFlags, oldMux := os.Args, flag.CommandLine, http.DefaultServeMux
	defer func() { os.Args, flag.CommandLine, http.DefaultServeMux = oldArgs, oldFlags, oldMux }()
	os.Args = append([]string{"logument"}, args...)
	flag.CommandLine = flag.NewFlagSet("logument", flag.PanicOnError)
	http.DefaultServeMux = http.NewServeMux()
	zzrt.Served = nil
	c.Step()
	func() {
		defer c.quiet()()
		zzweb.Run()
	}()
	return zzrt.Served
}

func readDoc(c *Ctx, name string) ([]byte, *N) {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Failf("a file of the dataset is missing: %v", err)
	}
	v, err := parseText(b)
	if err != nil {
		c.Failf("%s is no document: %v", filepath.Base(name), err)
	}
	return b, fromT(v)
}

// readSite reads the dataset in the current directory.
func (c *Ctx) readSite(cars, files int) *site {
	s := &site{files: files, docs: map[int][]*N{}}
	es, err := os.ReadDir("dataset")
	if err != nil {
		c.Failf("there is no dataset: %v", err)
	}
	for _, e := range es {
		if m := carDirRe.FindStringSubmatch(e.Name()); m != nil {
			n, _ := strconv.Atoi(m[1])
			s.cars = append(s.cars, n)
		}
	}
	if len(s.cars) != cars {
		c.Failf("the dataset has %d cars, not %d", len(s.cars), cars)
	}
	for _, car := range s.cars {
		id := strconv.Itoa(car)
		got, _ := filepath.Glob(filepath.Join("dataset", "car_"+id, "tson", "*"))
		if len(got) != files {
			c.Failf("car %d has %d files, not %d", car, len(got), files)
		}
		for k := 1; k <= files; k++ {
			num := strconv.Itoa(k)
			b, d := readDoc(c, fmt.Sprintf("dataset/car_%s/tson/%s_%d.tson", id, id, k))
			s.docs[car] = append(s.docs[car], d)
			if k == 1 {
				s.requests = append(s.requests, request{"/update", id, "", b, nil, new([]byte)}, request{"/patch", id, "", nil, d, new([]byte)})
			}
			s.requests = append(s.requests, request{"/patch", id, num, nil, d, new([]byte)})
			if p, err := os.ReadFile(fmt.Sprintf("dataset/car_%s/patches/%s_%d.json", id, id, k)); err == nil {
				s.requests = append(s.requests, request{"/update", id, num, p, nil, new([]byte)})
			} else if k > 1 {
				c.Failf("a file of the dataset is missing: %v", err)
			}
		}
	}
	return s
}

func ask(h http.Handler, r request) (int, []byte) {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(http.MethodGet, r.url(), nil))
	return w.Code, w.Body.Bytes()
}

func (r request) wrong(code int, b []byte) string {
	switch {
	case code != http.StatusOK:
		return fmt.Sprintf("%s answers with status %d", r.url(), code)
	case r.doc == nil:
		if !bytes.Equal(b, r.file) {
			return fmt.Sprintf("%s answers with\n%s\n, not with the file\n%s", r.url(), head(string(b), 600), head(string(r.file), 600))
		}
	case len(b) > 0 && bytes.Equal(b, *r.right):
	default:
		var v tson.Tson
		if err := tson.Unmarshal(b, &v); err != nil {
			return fmt.Sprintf("%s answers with no document: %v\n%s", r.url(), err, head(string(b), 600))
		}
		if got := fromT(v); !eqn(got, r.doc, true) {
			return fmt.Sprintf("the answer to %s is not the document of that number:\n%s", r.url(), diffLines(indented(got), indented(r.doc)))
		}
		*r.right = bytes.Clone(b)
	}
	return ""
}

func indented(n *N) string {
	b, _ := tson.MarshalIndent(n.toT(), "", " ")
	return string(b)
}

func (c *Ctx) get(h http.Handler, r request, before string) {
	c.Step()
	code, b := ask(h, r)
	if msg := r.wrong(code, b); msg != "" {
		c.Failf("%s\n(after %s)", msg, before)
	}
}

var siteStart = int64(1700000000123456789)

func init() {
	const limit = 1 << 40
	register(&Prop{ID: "C26", Assumptions: []string{
		"requests are those of the page index.html: a car of the dataset, and no patch or one of the dataset's numbers; they reach the handler without a network",
		"requests at the same time are interleaved before the statements of the program at the top of the repository and next to uses of package-level variables elsewhere",
	}, Families: func(tier string) []Family {
		return []Family{{Name: "orders", Depth: 2, Extra: 6, Orders: 2, Weight: 4, Limit: limit, Body: func(c *Ctx) {
			// the requests of the real dataset one after another, from each on, forwards and backwards
			const parts = 16
			part := c.Choose(parts)
			c.own()
			c.Log("stream %d, requests from group %d on", c.Depth, part)
			// in a process of its own, as the program may keep what it has served
			exe, err := os.Executable()
			if err != nil {
				panic("harness: " + err.Error())
			}
			cmd := exec.Command(exe, "web-session", fmt.Sprint(c.Depth), fmt.Sprint(part), fmt.Sprint(parts), fmt.Sprint(c.orderMode))
			cmd.Dir = c.tempDir()
			defer os.RemoveAll(cmd.Dir)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			err = c.child(cmd, 1000)
			o := buf.Bytes()
			var out sessionResult
			if json.Unmarshal([]byte(lastLine(string(o))), &out) != nil {
				if strings.Contains(string(o), "/repo/") {
					c.Failf("the program crashes: %v\n%s", err, head(string(o), 3000))
				}
				panic(fmt.Sprintf("harness: %v %s", err, o))
			}
			for range out.Requests {
				c.Step()
			}
			for _, s := range out.States {
				c.State(s)
			}
			if out.Failure != "" {
				c.Failf("%s", out.Failure)
			}
		}}, {Name: "arguments", Depth: 1, Limit: limit, Body: func(c *Ctx) {
			cars, files := c.Choose(4), []int{1, 2, 3, 12}[c.Choose(4)]
			r := []rates{{.1, .2, 0}, {.05, 0, 0}, {.2, 1, 0}, {.1, 0, 1}, {.1, .3, .3}}[c.Choose(5)]
			spelling := c.Choose(2)
			c.own()
			c.Log("cars %d files %d rates %v", cars, files, r)
			c.clock(siteStart, 1000)
			c.randomness(cars, 0)
			c.inTempDir(func(dir string) {
				name := repoCatalog
				args := []string{"-cars", fmt.Sprint(cars), "-files", fmt.Sprint(files), "-size", fmt.Sprint(r.size), "-change_rate", fmt.Sprint(r.change), "-maintain_rate", fmt.Sprint(r.maintain)}
				if spelling == 1 {
					name = c.writeCatalog(dir, smallCatalogs()[cars])
					r.size = 1
					args = []string{fmt.Sprint("--cars=", cars), fmt.Sprint("--files=", files), fmt.Sprint("--change_rate=", r.change), fmt.Sprint("--maintain_rate=", r.maintain), "--dataset=" + name}
				}
				if h := c.startDemo("", args...); h != nil {
					c.Failf("a web server is started although arguments are given")
				}
				s := c.readSite(cars, files)
				b, _ := os.ReadFile(name)
				var j map[string]any
				json.Unmarshal(b, &j)
				cat := readCatalog(j)
				for _, car := range s.cars {
					docs := c.carFiles(func(kind string, k int) string {
						ext := map[string]string{"tson": "tson", "patches": "json"}[kind]
						return fmt.Sprintf("dataset/car_%d/%s/%d_%d.%s", car, kind, car, k, ext)
					}, files, r, true)
					for i, d := range docs {
						if msg := conforms(d, cat, r.size); msg != "" {
							c.Failf("document %d with size %v and rates %v %v: %s", i+1, r.size, r.change, r.maintain, msg)
						}
					}
				}
			})
		}}, {Name: "numbers", Limit: limit, Body: func(c *Ctx) { // of cars and files, of two and three digits
			cars, files := 12, 103
			if c.Bool() {
				cars, files = 101, 11
			}
			c.own()
			c.Log("cars %d files %d", cars, files)
			c.clock(siteStart, 1000)
			c.randomness(1, 0)
			c.inTempDir(func(dir string) {
				b, _ := json.Marshal(smallCatalogs()[0])
				h := c.startDemo(string(b))
				if h == nil {
					c.Failf("no web server is started")
				}
				old, err := os.ReadFile("dataset/car_1/tson/1_1.tson")
				c.startDemo(string(b), "-cars", fmt.Sprint(cars), "-files", fmt.Sprint(files), "-size", "1", "-change_rate", "1")
				if now, err2 := os.ReadFile("dataset/car_1/tson/1_1.tson"); err != nil || err2 != nil || bytes.Equal(old, now) {
					c.Prune()
				}
				if _, b := ask(h, request{path: "/update", car: "1"}); bytes.Equal(b, old) { // it keeps the dataset it started with
					c.Prune()
				}
				s := c.readSite(cars, files)
				for _, r := range s.requests {
					if k, _ := strconv.Atoi(r.patch); k < 8 || k > files-5 || r.path == "/update" {
						c.get(h, r, "a larger dataset")
					}
				}
			})
		}}, {Name: "sequences", Depth: 2, Extra: 1, Limit: limit, Weight: 2, Body: func(c *Ctx) {
			// depth 1: all pairs, 2: all triples of two cars and five numbers, 3: all triples
			c.onSmallSite(1, func(s *site) {
				rs := s.requests
				if c.Depth == 2 {
					rs = s.some(1, 2, 5, 10)
				}
				l := []request{rs[c.Choose(len(rs))]}
				if c.Depth > 1 {
					l = append(l, rs[c.Choose(len(rs))])
				}
				c.own()
				names := ""
				for _, r := range l {
					names += " " + r.url()
				}
				c.Log("first%s", names)
				for _, r := range rs {
					for _, f := range l {
						c.get(s.h, f, "others")
					}
					c.get(s.h, r, names)
				}
			})
		}}, {Name: "concurrent", Depth: 2, Extra: 1, Limit: limit, Weight: 2, Body: func(c *Ctx) {
			c.onSmallSite(1, func(s *site) {
				few := s.some([]int{2, 10}[:3-min(c.Depth, 2)]...)
				i, j := c.Choose(len(few)), c.Choose(len(few))
				if i > j {
					c.Prune()
				}
				c.Log("%s and %s at the same time, %d preemptions", few[i].url(), few[j].url(), c.Depth-1)
				var fs []func() []any
				for _, r := range []request{few[i], few[j]} {
					c.Step()
					fs = append(fs, func() []any { return []any{r.wrong(ask(s.h, r))} })
				}
				for _, msg := range interleave(c, c.Depth-1, globals, fs) {
					if msg != "" {
						c.Failf("with %s and %s at the same time: %s", few[i].url(), few[j].url(), msg)
					}
				}
			})
		}}}
	}})
}

// some are the requests of two cars without number and with some numbers.
func (s *site) some(patches ...int) []request {
	var out []request
	for _, r := range s.requests {
		if (r.car == "1" || r.car == "2") && (r.patch == "" || slices.Contains(patches, r.number())) {
			out = append(out, r)
		}
	}
	return out
}

func (r request) number() int {
	n, _ := strconv.Atoi(r.patch)
	return n
}

var smallSites = map[int]*site{}
var smallSiteDirs = map[int]string{}

// onSmallSite runs f on a running demo with a small catalog.
func (c *Ctx) onSmallSite(stream int, f func(s *site)) {
	old, err := os.Getwd()
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Chdir(old)
	if smallSites[stream] == nil {
		dir := c.tempDir()
		os.Chdir(dir)
		c.clock(siteStart, 1000)
		c.randomness(stream, 0)
		kv := []any{}
		for i := range 60 {
			kv = append(kv, fmt.Sprintf("S%02d", i), sig(i%len(signalTypes)))
		}
		b, _ := json.Marshal(map[string]any{"V": branch("A", branch(kv...), "B", sig(3))})
		h := c.startDemo(string(b))
		if h == nil {
			c.Failf("no web server is started")
		}
		s := c.readSite(5, 10)
		s.h = h
		smallSites[stream], smallSiteDirs[stream] = s, dir
	}
	if err := os.Chdir(smallSiteDirs[stream]); err != nil {
		panic("harness: " + err.Error())
	}
	f(smallSites[stream])
}

type sessionResult struct {
	Failure  string
	Requests int
	States   []string
}

func init() {
	commands["web-session"] = func(args []string) {
		var n [4]int
		for i := range n {
			n[i], _ = strconv.Atoi(args[i])
		}
		var out sessionResult
		dir, _ := os.Getwd()
		w := &worker{prop: props["C26"], shards: 1, states: map[uint64]struct{}{}, maxStates: 1, scratch: dir, depth: n[0]}
		f := Family{Name: "session", Limit: 1 << 40, Body: func(c *Ctx) {
			c.clock(siteStart, 1000)
			c.randomness(n[0], 0)
			h := c.startDemo("")
			if h == nil {
				c.Failf("no web server is started")
			}
			s := c.readSite(5, 10)
			for i := range s.requests {
				c.get(h, s.requests[(i+n[1]*len(s.requests)/n[2])%len(s.requests)], "those before it in the dataset")
			}
			for i := range s.requests {
				c.get(h, s.requests[(2*len(s.requests)-1-i-n[1])%len(s.requests)], "those after it in the dataset")
			}
			out.Requests = 2 * len(s.requests)
			for _, r := range s.requests {
				if r.doc != nil {
					out.States = append(out.States, r.doc.String())
				}
			}
		}, Orders: 2}
		c, _ := w.run(&f, []int{n[3]})
		if c.fail != nil {
			out.Failure = c.fail.Message + "\n" + c.fail.Stack
		}
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
	}
}
