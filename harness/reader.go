package main

// Texts that Reader.tla enumerates: for each group of destinations the tokens
// the specification's environment may put into a text.

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

type dest struct {
	t   reflect.Type
	old any // nil: zero value
}

type group struct {
	dests []dest
	val   []string // tokens where a value may start
	key   []string // tokens where a key may start
	trail []string // tokens after the end
	quick int      // tokens in a text
	deep  int
}

type inner struct {
	A int `php:"a"`
	B int `php:"b"`
}

func into[T any]() dest      { return dest{t: reflect.TypeFor[T]()} }
func onto[T any](old T) dest { return dest{t: reflect.TypeFor[T](), old: old} }
func headers(s ...string) (h []string) {
	for _, x := range s {
		h = append(h, strings.ReplaceAll(x, "#", `1:"A"`))
	}
	return
}

var five, six = 5, 6

func groups() map[string]group {
	type three struct {
		A int    `php:"a"`
		B string `php:"b"`
		C any    `php:"c"`
	}
	type parts struct {
		A *inner         `php:"a"`
		B []int          `php:"b"`
		C map[string]int `php:"c"`
		D [2]int         `php:"d"`
	}
	type ptrs struct {
		A *int    `php:"a"`
		B **int   `php:"-"`
		C *[]int  `php:"c"`
		D *string `php:"d"`
	}
	type opts struct {
		A int    `php:"a,string"`
		B bool   `php:"b,string"`
		C *uint8 `php:"c,string"`
		D string `php:"d,string"`
	}
	type cases struct {
		Aa  int
		AA  int
		X   int `php:"aa"`
		Y   int `php:"-"`
		Z   int `php:"-,"`
		low int
		W   int `php:"X,omitempty"`
	}
	type users struct {
		A UStruct `php:"a"`
		B *UStr   `php:"b"`
		C int     `php:"c"`
		D []UArr  `php:"d"`
		E [1]UMap `php:"e"`
		F MU      `php:"f"`
	}
	w := &parts{A: &inner{1, 2}, B: []int{7, 8, 9}, C: map[string]int{"a": 1, "z": 26}, D: [2]int{3, 4}}
	scalars := []string{"N;", "b:1;", "i:5;", "d:1.5;", `s:1:"a";`}
	return map[string]group{
		"C05": {dests: []dest{into[three](), into[parts](), into[[]inner](), into[map[string][]int](), into[map[int8]*string](), into[*[]*int](), into[[2]map[string]any](), into[RTree](), into[map[string]RMap]()},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "O:1:\"A\":1:{"}, scalars...), key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"c";`, `s:1:"d";`, "i:0;", "i:1;"}, quick: 5, deep: 6},
		"C06": {dests: []dest{into[int](), into[string](), into[[]byte](), into[bool](), into[*float64](), into[[]int](), into[[1]string](), into[map[string]int](), into[map[int]any](), into[inner](), into[any](), into[UStruct](), into[uint8]()},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "a:-1:{", "a:1;{", "a:1:[", "a::{", "a:1{", "A:0:{", "a0:{", "a{", "a:{", "a:0:[", "a:0:x", "a", "i", "O\"\":0:{", "O\"\":1:{", "O\"A\":0:{", "O:1:\"A\";0:{", "O{", "O:{", "O:1:\"A\"{", "O:1:\"A\":{", "O:1:\"A\"1:{", "O:1:\"A\":0:{", "O:1:\"A\":1:{", "O:1:\"A:1:{", "O:2:\"A\":1:{", "n;", "N:", "b:2;", "b:;", "b:1", "b:01;", "i:;", "i:-;", "i:+1;", "i:1.0;", "i: 1;", "i1;", "i:5:", "d:;", "d:1.5", "d:x;", "d:1.5.;",
				`s:1:a;`, `s:2:"a";`, `s:1:"ab";`, `s:0:"a";`, `s:1:"a"`, `s:1:'a';`, `s::"";`, `s:-1:"";`, `s:1"a";`, `s"a";`, `s;`, "i;", "i5;", "b;", "b1;", "d;", "d1;", "N", `S:1:"a";`, "}", "{", ";", "x", " ", "r:1;", "R:1;", "C:1:\"A\":0:{}"}, scalars...),
			key: []string{`s:1:"a";`, `s:1:"x";`, "i:0;", "i:1;", "i:-1;", "i:;", `s:2:"a";`, "b:1;", "N;", "d:0;", "a:0:{}", "x", ";", "i:0", `s:1:"a"`, "i0;", "s:1:a;"}, trail: []string{"x", ";", "}", "N;", " ", "\n", "\x00"}, quick: 4, deep: 5},
		"C11": {dests: []dest{into[inner](), into[[1]int](), into[UStruct](), onto(inner{3, 4})},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "a:3:{", "O:1:\"A\":1:{", "O:2:\"{}\":0:{", "O:0:\"\":1:{"}, `s:4:"};";";`, `s:2:"a:";`, "d:INF;", "d:-INF;", "d:NAN;", "d:1e5;", "i:-99999999999999999999;", "N;", "b:0;", "i:5;", "b:2;", "d:x;", `s:2:"a";`, "x", "i:;"),
			key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"x";`, "i:0;", "i:1;", "N;", "b:1;", `s:2:"a";`}, quick: 5, deep: 6},
		"C12": {dests: []dest{onto(*w), onto(w), onto(ptrs{A: &five, C: &[]int{1, 2}, D: nil}), onto(map[string]*inner{"a": {1, 2}, "b": nil}), onto([]*inner{{1, 2}, {3, 4}}), onto([2]*inner{{1, 2}, nil}), onto(map[string][]int{"a": {1, 2, 3}}), onto[any](map[string]any{"a": 1}), onto(three{1, "b", w}), onto([2][]int{{1, 2}, {3}})},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "O:1:\"A\":1:{"}, "N;", "i:5;", `s:1:"a";`), key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"c";`, `s:1:"d";`, "i:0;", "i:1;"}, quick: 5, deep: 6},
		"C13": {dests: []dest{into[cases](), onto(cases{1, 2, 3, 4, 5, 6, 7}), into[map[string]cases](), into[[]cases]()},
			val: []string{"a:0:{", "a:1:{", "a:2:{", "a:3:{", "i:5;", "N;", `s:1:"a";`}, key: []string{`s:2:"aa";`, `s:2:"Aa";`, `s:2:"AA";`, `s:1:"-";`, `s:1:"Y";`, `s:1:"X";`, `s:1:"Z";`, `s:3:"low";`, `s:1:"W";`, `s:2:"aA";`, "i:0;"}, quick: 5, deep: 6},
		"C14": {dests: []dest{into[opts](), onto(opts{7, true, nil, "x"}), into[[]opts]()},
			val: []string{"a:1:{", "a:2:{", "N;", "i:5;", "b:1;", `s:1:"5";`, `s:2:"-5";`, `s:2:"+5";`, `s:2:"05";`, `s:3:"256";`, `s:4:"true";`, `s:5:"false";`, `s:1:"1";`, `s:0:"";`, `s:2:"5 ";`, `s:3:"0x5";`, `s:3:"5.0";`, `s:4:"True";`, `s:3:"1_0";`},
			key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"c";`, `s:1:"d";`, "i:0;"}, quick: 5, deep: 6},
		"C16": {dests: []dest{into[users](), into[UStruct](), into[*UInt](), into[[]UStr](), into[[2]*MU](), into[map[string]USlice](), into[map[UStr]UStr](), into[UFail](), into[[]*UFail](), onto(users{A: UStruct{[]byte("i:1;")}, B: new(UStr), C: 3, D: []UArr{{"N;"}}, E: [1]UMap{{"raw": "q"}}}), into[*map[string]*UKey](), onto([]*UStruct{{[]byte("x")}, nil})},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "O:1:\"A\":1:{", "x", `s:2:"};";`, "d:INF;", `"a"`, "[1]", "-1"}, scalars...), key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"c";`, `s:1:"d";`, `s:1:"e";`, "i:0;", "i:1;", `s:1:"f";`, "N;"}, quick: 5, deep: 6},
		"C17": {dests: []dest{into[any](), onto[any](w), onto[any](five), onto[any](map[string]any{"z": 1}), into[[]any](), into[map[string]any](), into[map[any]any](), into[[1]any](), into[*any](), into[struct {
			A any  `php:"a"`
			B *any `php:"b"`
		}](), onto(map[any]any{int64(1): 2, "a": nil})},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "O:1:\"A\":0:{", "O:1:\"A\":1:{", "O:1:\"A\":2:{", "x"}, scalars...), key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"0";`, "i:0;", "i:-1;", "N;", "b:1;"}, quick: 5, deep: 6},
		"C21": {dests: []dest{into[RList](), into[RTree](), into[RMap](), into[*RList](), into[[]RTree](), into[struct {
			A int      `php:"a"`
			C chan int `php:"-"`
			F func()
		}](), into[struct {
			A int      `php:"a"`
			C chan int `php:"-"`
			f func()
		}](), into[chan int](), into[map[string]func()](), into[**int](), into[[]complex128](), into[any](), into[map[float64]int](), into[EmbVal]()},
			val: append([]string{"a:0:{", "a:1:{", "a:2:{", "O:1:\"A\":1:{"}, "N;", "i:5;", `s:1:"a";`), key: []string{`s:1:"a";`, `s:1:"v";`, `s:1:"n";`, `s:4:"next";`, `s:4:"Next";`, `s:1:"C";`, "i:0;", "i:1;"}, quick: 5, deep: 6},
		"C22": {dests: []dest{into[inner](), into[map[string]inner](), into[map[string]any](), into[[]inner](), into[any](), into[UStruct](), into[map[int]int](), into[struct {
			A map[string]int `php:"a"`
			B *inner         `php:"b"`
		}](), into[[]int](), into[[1]int](), into[string]()},
			val: []string{"a:1:{", "a:0:{", "O:1:\"A\":0:{", "O:1:\"A\":1:{", "O:1:\"A\":2:{", "O:3:\"a\"b\":1:{", "O:0:\"\":1:{", "O:4:\":1:{\":1:{", "O:2:\"A\":1:{", "O:1:A:1:{", "O:1:\"A\"1:{", "O:1:\"A\":-1:{", "O:1:\"AB\":1:{", "O:01:\"A\":1:{", "N;", "i:5;"},
			key: []string{`s:1:"a";`, `s:1:"b";`, `s:1:"x";`, "i:0;", "i:1;"}, quick: 5, deep: 6},
		"C23": {dests: []dest{into[[]int](), into[[2]int](), into[[0]int](), into[[][]int](), into[[2][]int](), into[[][1]int](), into[[]*int](), onto([]int{7, 8, 9}), onto([2]int{7, 8}), onto([][]int{{1, 2}, {3}}), onto([]*int{&five, &six}), into[[]inner](), onto([]inner{{1, 2}, {3, 4}}), into[[]any](), into[[1]map[string]int](), into[[]byte](), into[[]int8]()},
			val: []string{"a:0:{", "a:1:{", "a:2:{", "a:3:{", "i:5;", "i:6;", "N;"}, key: []string{"i:0;", "i:1;", "i:2;", "i:3;", "i:-1;", "i:-0;", "i:00;", "i:4294967296;", "i:9223372036854775808;", `s:1:"0";`, `s:1:"a";`, "i:700;"}, quick: 5, deep: 6},
		"C07": {dests: []dest{into[int](), into[[]int](), into[[2]int](), into[map[any]int](), into[map[bool]int](), into[map[*int]int](), into[map[UKey]int](), into[map[float64]int](), into[any](), into[inner](), into[UStruct](), into[[]struct{}](), into[chan int](), into[Named](), into[map[Named]int](), into[[]byte](), into[uintptr]()},
			val: append([]string{"a:0:{", "a:1:{", "a:99999999999:{", "a:-1:{", "a:99999999999999999999:{", "O:1:\"A\":1:{", "O:9:\"A\":1:{", "O:-1:\"A\":1:{", "O:9223372036854775807:\"A\":1:{", "s:9:\"a\";", "s:-1:\"a\";", "s:9223372036854775807:\"a\";", "s:99999999999999999999:\"", "a", "O", "s", "i", "d", "b", "N", "a:", "O:", "s:", "i:", "i:-", "d:", "b:", "O:1", "O:1:", "O:1:\"", "O:1:\"A", "O:1:\"A\"", "O:1:\"A\":", "O:1:\"A\":1", "O:1:\"A\":1:", "s:1", "s:1:", "s:1:\"", "s:1:\"a", "s:1:\"a\"", "a:1", "a:1:", "\xff", "\x00", "}"}, scalars...),
			key: []string{`s:1:"a";`, "i:0;", "i:9223372036854775807;", "i:-9223372036854775808;", "i:4611686018427387904;", "N;", "b:1;", "a:0:{}", "d:1;", "i:", "s:", "s:3:\"", "i:-1", `s:2:"a!";`}, quick: 4, deep: 5},
	}
}

func destOf(d dest) reflect.Value {
	if d.old == nil {
		return reflect.Value{}
	}
	v := reflect.New(d.t).Elem()
	v.Set(reflect.ValueOf(d.old))
	return clone(v)
}

// the destinations and tokens of a group, for Reader.tla
func writeGroup(name string, w *bufio.Writer) {
	g, ok := groups()[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: no group", name)
		os.Exit(3)
	}
	b := []byte(`{"dests":[`)
	for i, d := range g.dests {
		t := newTypeTable()
		ti := t.add(d.t)
		dst := reflect.New(d.t).Elem()
		if o := destOf(d); o.IsValid() {
			dst.Set(o)
		}
		t.old = true
		dump := t.appendValue(nil, dst, decMode)
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, `{"types":[`...)
		for j, n := range t.nodes {
			if j > 0 {
				b = append(b, ',')
			}
			b = append(b, n...)
		}
		b = append(b, `],"t":`...)
		b = strconv.AppendInt(b, int64(ti), 10)
		b = append(b, `,"old":`...)
		b = append(b, dump...)
		b = append(b, '}')
	}
	b = append(b, ']')
	for _, x := range []struct {
		n string
		s []string
	}{{"val", g.val}, {"key", append(g.key, "}")}, {"trail", g.trail}} {
		b = append(b, `,"`+x.n+`":[`...)
		for i, s := range x.s {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendBytes(b, s)
		}
		b = append(b, ']')
	}
	b = append(b, fmt.Sprintf(`,"quick":%d,"deep":%d}`, g.quick, g.deep)...)
	w.Write(append(b, '\n'))
}

var looksLike = regexp.MustCompile(`^[^{\[;}]*[{\[;}]`)
var countAtEnd = regexp.MustCompile(`([0-9]+)?:*.$`)

// what a text lacks to look complete, by its braces and semicolons alone
func (r *run) completion(s string) string {
	var open []int // entries times two
	if strings.HasSuffix(s, ":") {
		s += "{"
	}
	rest := ""
	for {
		tok := looksLike.FindString(s)
		if tok == "" {
			if s != "" {
				rest = ";"
			} else {
				break
			}
			tok = s + ";"
			s += ";"
		}
		s = s[len(tok):]
		switch tok[len(tok)-1] {
		case '}':
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
			if tok != "}" { // unfinished before it
				continue
			}
		default:
			if len(open) > 0 {
				open[len(open)-1]--
			}
			if tok[len(tok)-1] != ';' {
				n := r.Intn(2)
				if m := countAtEnd.FindStringSubmatch(tok); m[1] != "" && r.p(.9) {
					n, _ = strconv.Atoi(m[1])
				}
				open = append(open, 2*min(n, 3))
			}
		}
	}
	for k := len(open) - 1; k >= 0; k-- {
		for n := open[k]; n > 0; n-- {
			rest += "i:" + strconv.Itoa(r.Intn(2)) + ";"
		}
		rest += "}"
	}
	return rest
}

// ---- replaying: lines `X <destination> <hex>`, ten to a case

var readerLines = sync.OnceValue(func() []string {
	b, err := os.ReadFile(*replayArg)
	if err != nil {
		panic(err)
	}
	return strings.Split(strings.TrimSpace(string(b)), "\n")
})

func readerTexts(name string) func(r *run, i int) {
	g := sync.OnceValue(func() group { return groups()[name] })
	return func(r *run, i int) {
		lines := readerLines()
		for k := i * 10; k < i*10+10 && k < len(lines); k++ {
			f := strings.Fields(lines[k])
			n, err := strconv.Atoi(f[1])
			if err != nil {
				panic(err)
			}
			in := []byte{}
			if len(f) > 2 {
				if in, err = hex.DecodeString(f[2]); err != nil {
					panic(err)
				}
			}
			d := g().dests[n-1]
			r.decode(decCase{rt: d.t, in: in, old: destOf(d), note: "read"})
			// the specification stops where the text is wrong; a reader that does not see it goes on
			if rest := r.completion(string(in)); rest != "" {
				r.decode(decCase{rt: d.t, in: append(in[:len(in):len(in)], rest...), old: destOf(d), note: "completed"})
			}
		}
	}
}
