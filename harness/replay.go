package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	php "github.com/trim21/go-phpserialize"
)

// Replays of behaviours TLC printed.  Each line of the input file is one
// behaviour; what the code does is compared with what the line says.
type replayer struct {
	out    string
	seed   int64
	n      int
	bad    *os.File
	prog   *os.File
	calls  int
	only   int // line, -1 for all
	from   int
	id     int
	before string // the line before this one
}

func (r *replayer) report(what string, got, want any) {
	s := func(x any) string {
		t := fmt.Sprintf("%q", x)
		if len(t) > 3000 {
			t = t[:3000] + "..."
		}
		return t
	}
	fmt.Fprintf(r.bad, "BAD %d %s: got %s, specified %s\n", r.id, what, s(got), s(want))
}

// one call of the library, on a watched clock
func (r *replayer) call(f func()) (panicked string) {
	r.calls++
	current.Store(int64(r.id))
	started.Store(time.Now().UnixNano())
	defer func() {
		started.Store(0)
		if e := recover(); e != nil {
			panicked = "panic: " + fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

func (r *replayer) marshal(v any) (out string, err error, panicked string) {
	panicked = r.call(func() {
		var b []byte
		b, err = php.Marshal(v)
		out = string(b)
	})
	return
}

func (r *replayer) unmarshal(s string, dst any) (err error, panicked string) {
	panicked = r.call(func() { err = php.Unmarshal([]byte(s), dst) })
	return
}

func (r *replayer) marshalBytes(v any) (out []byte, err error, panicked string) {
	panicked = r.call(func() { out, err = php.Marshal(v) })
	return
}

var php_Unmarshal = php.Unmarshal

// the outcome of a Marshal call as one string
func outcome(out string, err error, panicked string) string {
	switch {
	case panicked != "":
		return panicked
	case err != nil && out != "":
		return "error with output " + out
	case err != nil:
		return "error"
	}
	return out
}

func replayMain(mode, arg, out string, seed int64, n, from, only int) {
	os.MkdirAll(out, 0o755)
	create := func(name string) *os.File {
		f, err := os.Create(filepath.Join(out, name))
		if err != nil {
			panic(err)
		}
		return f
	}
	r := &replayer{out: out, seed: seed, n: n, bad: create("bad"), prog: create("progress"), only: only, from: from}
	f, ok := map[string]func(*replayer, string){"graph": replayGraph, "chain": replayChain, "depth": replayDepth, "own": replayOwn, "runtime": replayRuntime}[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: unknown mode", mode)
		os.Exit(3)
	}
	in, err := os.Open(arg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 64<<20)
	lines := 0
	last := ""
	for ; sc.Scan(); r.id++ {
		r.before, last = last, sc.Text()
		if r.id < from || (only >= 0 && r.id != only) || (n > 0 && r.id >= from+n) {
			continue
		}
		lines++
		r.prog.WriteAt([]byte(fmt.Sprintf("%-20d\n", r.id)), 0)
		f(r, sc.Text())
	}
	r.bad.Close()
	os.WriteFile(filepath.Join(out, "finished"), []byte(fmt.Sprintf("%d %d\n", lines, r.calls)), 0o644)
}

// ---- Graph.tla

type (
	gIn  struct{ V any }
	gOut struct {
		In gIn
		X  any
	}
	gT struct {
		A *gT
		B []gT
	}
	gS []gS
	gM map[string]gM
	gU struct {
		M map[string]*gU
		I any
		R [1]*gU
	}
)

func digit(s string, i int) int { return int(s[i] - '0') }

// the things graphs are made of; one set serves several graphs, one after the other
type gNodes struct {
	heap  [3]any
	o     [2]gOut
	m     map[string]any
	a     [2]gT
	heapD [3]gS
	ms    []gM
	us    []*gU
}

func newNodes() *gNodes {
	return &gNodes{m: map[string]any{}, ms: []gM{{}, {}}, us: []*gU{{M: map[string]*gU{}}, {M: map[string]*gU{}}}}
}

var unencodable = make(chan int)

func (n *gNodes) graph(layout, root string, cells []string) any {
	switch layout {
	case "A":
		heap := &n.heap
		ref := func(s string) any {
			switch s[0] {
			case '7':
				return 7
			case 'x':
				return unencodable
			case 'p':
				return &heap[digit(s, 1)]
			case 's':
				return heap[digit(s, 1):digit(s, 2)]
			}
			return (*[2]any)(heap[digit(s, 1) : digit(s, 1)+2])
		}
		for i, c := range cells {
			heap[i] = ref(c)
		}
		return ref(root)
	case "B":
		o, m := &n.o, n.m
		ref := func(s string) any {
			switch s[0] {
			case '7':
				return 7
			case 'x':
				return unencodable
			case 'o':
				return &o[digit(s, 1)]
			case 'i':
				return &o[digit(s, 1)].In
			case 'p':
				return &o[0].In.V
			}
			return m
		}
		o[0].In.V, o[0].X, o[1].In.V, m["k"], o[1].X = ref(cells[0]), ref(cells[1]), ref(cells[2]), ref(cells[3]), 7
		return ref(root)
	case "C":
		a := &n.a
		ref := func(s string) (*gT, []gT) {
			switch s[0] {
			case 'p':
				return &a[digit(s, 1)], nil
			case 's':
				return nil, a[digit(s, 1):digit(s, 2)]
			}
			return nil, nil
		}
		for k := range a {
			a[k].A, _ = ref(cells[2*k])
			_, a[k].B = ref(cells[2*k+1])
		}
		if p, s := ref(root); p != nil {
			return p
		} else {
			return s
		}
	case "D":
		heap := &n.heapD
		ref := func(s string) gS {
			if s == "N" {
				return nil
			}
			return heap[digit(s, 1):digit(s, 2)]
		}
		for i, c := range cells {
			heap[i] = ref(c)
		}
		return ref(root)
	case "E":
		ms := n.ms
		ref := func(s string) gM {
			switch s {
			case "N":
				return nil
			case "e":
				return gM{}
			}
			return ms[digit(s, 1)]
		}
		ms[0]["k"], ms[1]["k"] = ref(cells[0]), ref(cells[1])
		return ref(root)
	case "F":
		us := n.us
		ref := func(s string) *gU {
			if s == "N" {
				return nil
			}
			return us[digit(s, 1)]
		}
		held := func(s string) any {
			switch s[0] {
			case '7':
				return 7
			case 'x':
				return unencodable
			case 'm':
				return us[digit(s, 1)].M
			}
			return us[digit(s, 1)]
		}
		for k, u := range us {
			u.M["k"], u.I, u.R[0] = ref(cells[3*k]), held(cells[3*k+1]), ref(cells[3*k+2])
		}
		return held(root)
	}
	panic("layout " + layout)
}

// a chain of n links of some kind around v, and what it adds to the text
type link struct {
	name       string
	wrap       func(v any) any
	open, shut string
}

type chainNode struct{ N any }

var links = []link{
	{"[]any", func(v any) any { return []any{v} }, "a:1:{i:0;", "}"},
	{"map[string]any", func(v any) any { return map[string]any{"k": v} }, `a:1:{s:1:"k";`, "}"},
	{"*struct", func(v any) any { return &chainNode{v} }, `a:1:{s:1:"N";`, "}"},
	{"struct", func(v any) any { return chainNode{v} }, `a:1:{s:1:"N";`, "}"},
	{"[1]any", func(v any) any { return [1]any{v} }, "a:1:{i:0;", "}"},
	{"*[1]any", func(v any) any { return &[1]any{v} }, "a:1:{i:0;", "}"},
	{"*any", func(v any) any { return &v }, "", ""},
	{"map[int]any", func(v any) any { return map[int]any{3: v} }, `a:1:{i:3;`, "}"},
	{"*[]any", func(v any) any { return &[]any{v} }, "a:1:{i:0;", "}"},
	{"[]*struct", func(v any) any { return []*chainNode{{v}} }, `a:1:{i:0;a:1:{s:1:"N";`, "}}"},
}

func chain(v any, n int, kind func(int) link) (any, string, string) {
	open, shut := make([]string, n), make([]string, n)
	for i := range n {
		l := kind(i)
		v = l.wrap(v)
		open[n-1-i], shut[i] = l.open, l.shut
	}
	return v, strings.Join(open, ""), strings.Join(shut, "")
}

func replayGraph(r *replayer, line string) {
	f := strings.SplitN(line, " ", 6) // G layout root result cells text
	n := newNodes()
	// the graph before this one was made of the same things, with other references
	if b := strings.SplitN(r.before, " ", 6); b[0] == "G" && b[1] == f[1] {
		got, want := outcome(r.marshal(n.graph(b[1], b[2], strings.Split(b[4], ",")))), b[5]
		if b[3] != "ok" {
			want = "error"
		}
		if got != want {
			r.report("graph "+r.before, got, want)
		}
	}
	v := n.graph(f[1], f[2], strings.Split(f[4], ","))
	want := func(open, text, shut string) string {
		if f[3] != "ok" {
			return "error"
		}
		return open + text + shut
	}
	text := f[5]
	if got := outcome(r.marshal(v)); got != want("", text, "") {
		r.report("graph "+line, got, want("", text, ""))
	}
	if got := outcome(r.marshal([]any{v, v})); got != want("a:2:{i:0;", text+"i:1;"+text, "}") {
		r.report("twice, graph "+line, got, want("a:2:{i:0;", text+"i:1;"+text, "}"))
	}
	// below a chain: the guard may only start at some depth
	depth := []int{1, 2, 3, 30, 100, 300, 1000, 1500}[(r.id/len(links))%8]
	if depth > 50 && r.id%16 != int(r.seed%16) {
		depth %= 17
	}
	w, open, shut := chain(v, depth, func(i int) link { return links[(r.id+i*(r.id%3))%len(links)] })
	if got := outcome(r.marshal(w)); got != want(open, text, shut) {
		r.report(fmt.Sprintf("below %d levels, graph %s", depth, line), got, want(open, text, shut))
	}
}

// ---- long chains: `K depth kind tail` with the tail a leaf, a shared value,
// or a reference back to the chain (top, middle)
func replayChain(r *replayer, line string) {
	f := strings.Fields(line)
	depth, _ := strconv.Atoi(f[1])
	kind, _ := strconv.Atoi(f[2])
	of := func(i int) link {
		if kind == len(links) {
			return links[i%len(links)]
		}
		return links[kind]
	}
	if f[3] == "dag" { // every level refers twice to the next
		var v any = 7
		text := "i:7;"
		for i := range depth {
			l := of(i)
			w := l.wrap(v)
			text = "a:2:{i:0;" + l.open + text + l.shut + "i:1;" + l.open + text + l.shut + "}"
			v = []any{w, w}
		}
		if got := outcome(r.marshal(v)); got != text {
			r.report("chain "+line, got, text)
		}
		return
	}
	back := new(any)
	var tail any = 7
	text := "i:7;"
	switch f[3] {
	case "nil":
		tail, text = nil, "N;"
	case "shared": // the same things once more at the end of a long path
		s := []any{1}
		p := &chainNode{s}
		tail, text = []any{p, s, p, s}, `a:4:{i:0;a:1:{s:1:"N";a:1:{i:0;i:1;}}i:1;a:1:{i:0;i:1;}i:2;a:1:{s:1:"N";a:1:{i:0;i:1;}}i:3;a:1:{i:0;i:1;}}`
	case "top", "middle":
		tail = back
	}
	half := depth / 2
	if f[3] == "top" {
		half = depth
	}
	v, open, shut := chain(tail, half, of)
	if f[3] == "top" || f[3] == "middle" {
		*back = v
	}
	v, open2, shut2 := chain(v, depth-half, of)
	want := open2 + open + text + shut + shut2
	if f[3] == "top" || f[3] == "middle" {
		want = "error"
	}
	if got := outcome(r.marshal(v)); got != want {
		r.report("chain "+line, got, want)
	}
	// the same through typed recursion
	typed := func(v any, want string) {
		if got := outcome(r.marshal(v)); got != want {
			r.report("typed chain "+line, got, want)
		}
	}
	if kind == 0 && f[3] == "leaf" {
		s, l, m := gS{}, &gT{}, gM{}
		for range depth {
			s, l, m = gS{s}, &gT{A: l}, gM{"k": m}
		}
		rep := strings.Repeat
		typed(s, rep("a:1:{i:0;", depth)+"a:0:{}"+rep("}", depth))
		typed(m, rep(`a:1:{s:1:"k";`, depth)+"a:0:{}"+rep("}", depth))
		typed(l, rep(`a:2:{s:1:"A";`, depth)+`a:2:{s:1:"A";N;s:1:"B";N;}`+rep(`s:1:"B";N;}`, depth))
	}
	if kind == 0 && f[3] == "top" {
		s, l, m := gS{nil}, &gT{}, gM{}
		s0, l0, m0 := s, l, m
		for range depth {
			s, l, m = gS{s}, &gT{A: l}, gM{"k": m}
		}
		s0[0], l0.A, m0["k"] = s, l, m
		typed(s, "error")
		typed(l, "error")
		typed(m, "error")
	}
}
