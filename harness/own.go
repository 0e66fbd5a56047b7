package main

import (
	"fmt"
	"hash/crc32"
	"sort"
	"strings"
)

// ---- Own.tla

// keeps the bytes it was given
type keepU struct{ p []byte }

func (u *keepU) UnmarshalPHP(b []byte) error { u.p = b; return nil }

// keeps a copy, then overwrites and extends what it was given
type spoilU struct{ p []byte }

func (u *spoilU) UnmarshalPHP(b []byte) error {
	u.p = append([]byte(nil), b...)
	_ = append(b, "SPOILSPOILSPOIL"...)
	for i := range b {
		b[i] = '#'
	}
	return nil
}

// extends what it was given and keeps that
type growU struct{ p []byte }

func (u *growU) UnmarshalPHP(b []byte) error {
	u.p = append(b, "++++++++"...)[:len(b)]
	return nil
}

var staticOut = []byte(`s:12:"static bytes";`)

type staticM struct{}

func (staticM) MarshalPHP() ([]byte, error) { return staticOut, nil }

type ownNB []byte

// A destination with two byte slices b and c
type ownFamily struct {
	name string
	text func(b, c, s string) string
	mk   func() any
	get  func(d any, p byte) []byte
	set  func(d any, p byte, b []byte)
	show func(d any) string // everything else
	rest func(b, c, s string) string
	keep func(d any) any // the caller's shallow copy
	raw  bool            // the parts are texts
}

func str_(s string) string { return fmt.Sprintf("s:%d:%q;", len(s), s) }

type ownA struct {
	A string
	B []byte
	S string
	C []byte
	D any
	E map[string]any
	F []string
	G *string
}
type ownB struct {
	B ownNB
	A string
	C ownNB
	D map[string]string
}
type ownU[T any] struct {
	B T
	A string
	C T
	D []string
}
type ownP struct {
	B, C *[]byte
	A    map[any]any
}
type ownE struct{ B []byte }

func two[T any](p byte, b, c *T) *T {
	if p == 'b' {
		return b
	}
	return c
}

func textU(b, c, s string) string {
	return `a:4:{s:1:"B";` + b + `s:1:"A";` + str_(s) + `s:1:"C";` + c + `s:1:"D";a:1:{i:0;` + str_(s) + `}}`
}
func restU(b, c, s string) string { return s + "|" + s }

func famU[T any](name string, get func(*T) *[]byte) ownFamily {
	return ownFamily{name: name, raw: true, text: textU, rest: restU, mk: func() any { return new(ownU[T]) },
		get: func(d any, p byte) []byte { x := d.(*ownU[T]); return *get(two(p, &x.B, &x.C)) },
		set: func(d any, p byte, b []byte) { x := d.(*ownU[T]); *get(two(p, &x.B, &x.C)) = b },
		show: func(d any) string {
			x := d.(*ownU[T])
			return x.A + "|" + strings.Join(x.D, ",")
		},
		keep: func(d any) any { x := *d.(*ownU[T]); x.D = append([]string(nil), x.D...); return &x }}
}

var ownFamilies = []ownFamily{
	{name: "struct", text: func(b, c, s string) string {
		return `a:8:{s:1:"A";` + str_(s) + `s:1:"B";` + str_(b) + `s:1:"S";` + str_(s) + `s:1:"C";` + str_(c) + `s:1:"D";` + str_(s) + `s:1:"E";a:1:{s:1:"k";a:1:{` + str_(s) + str_(s) + `}}s:1:"F";a:2:{i:0;` + str_(s) + `i:1;` + str_(b) + `}s:1:"G";` + str_(c) + `}`
	},
		mk:  func() any { return new(ownA) },
		get: func(d any, p byte) []byte { x := d.(*ownA); return *two(p, &x.B, &x.C) },
		set: func(d any, p byte, b []byte) { x := d.(*ownA); *two(p, &x.B, &x.C) = b },
		show: func(d any) string {
			x := d.(*ownA)
			return fmt.Sprint(x.A, x.S, x.D, x.E, x.F, *x.G)
		},
		rest: func(b, c, s string) string {
			return fmt.Sprint(s, s, any(s), map[string]any{"k": map[any]any{s: s}}, []string{s, b}, c)
		},
		keep: func(d any) any { // maps and pointees are shared when decoding into a destination again
			x := *d.(*ownA)
			g := *x.G
			e := map[string]any{}
			for k, v := range x.E {
				e[k] = v
			}
			x.G, x.E = &g, e
			return &x
		}},
	{name: "named", text: func(b, c, s string) string {
		return `O:1:"X":4:{s:1:"B";` + str_(b) + `s:1:"A";` + str_(s) + `s:1:"C";` + str_(c) + `s:1:"D";a:1:{` + str_(s) + str_(s) + `}}`
	},
		mk: func() any { return new(ownB) },
		get: func(d any, p byte) []byte {
			x := d.(*ownB)
			return *two(p, &x.B, &x.C)
		},
		set:  func(d any, p byte, b []byte) { x := d.(*ownB); *two(p, &x.B, &x.C) = b },
		show: func(d any) string { x := d.(*ownB); return x.A },
		rest: func(b, c, s string) string { return s },
		keep: func(d any) any { x := *d.(*ownB); return &x }},
	{name: "map", text: func(b, c, s string) string {
		return `a:3:{s:1:"b";` + str_(b) + `s:1:"c";` + str_(c) + `s:1:"z";` + str_(s) + `}`
	},
		mk:   func() any { return new(map[string][]byte) },
		get:  func(d any, p byte) []byte { return (*d.(*map[string][]byte))[string(p)] },
		set:  func(d any, p byte, b []byte) { (*d.(*map[string][]byte))[string(p)] = b },
		show: func(d any) string { return mapKeys(*d.(*map[string][]byte)) + string((*d.(*map[string][]byte))["z"]) },
		rest: func(b, c, s string) string { return "bcz" + s },
		keep: func(d any) any {
			m := map[string][]byte{}
			for k, v := range *d.(*map[string][]byte) {
				m[k] = v
			}
			return &m
		}},
	{name: "slice", text: func(b, c, s string) string {
		return `a:3:{i:0;` + str_(b) + `i:1;` + str_(c) + `i:2;` + str_(s) + `}`
	},
		mk:   func() any { return new([][]byte) },
		get:  func(d any, p byte) []byte { return (*d.(*[][]byte))[p-'b'] },
		set:  func(d any, p byte, b []byte) { (*d.(*[][]byte))[p-'b'] = b },
		show: func(d any) string { x := *d.(*[][]byte); return fmt.Sprint(len(x), string(x[2])) },
		rest: func(b, c, s string) string { return fmt.Sprint(3, s) },
		keep: func(d any) any { x := append([][]byte(nil), *d.(*[][]byte)...); return &x }},
	{name: "array", text: func(b, c, s string) string {
		return `a:2:{i:1;` + str_(c) + `i:0;` + str_(b) + `}`
	},
		mk:   func() any { return new([2][]byte) },
		get:  func(d any, p byte) []byte { return d.(*[2][]byte)[p-'b'] },
		set:  func(d any, p byte, b []byte) { d.(*[2][]byte)[p-'b'] = b },
		show: func(d any) string { return "" },
		rest: func(b, c, s string) string { return "" },
		keep: func(d any) any { x := *d.(*[2][]byte); return &x }},
	{name: "elements", text: func(b, c, s string) string {
		return `a:2:{i:0;a:1:{s:1:"B";` + str_(b) + `}i:1;a:1:{s:1:"B";` + str_(c) + `}}`
	},
		mk:   func() any { return new([]ownE) },
		get:  func(d any, p byte) []byte { return (*d.(*[]ownE))[p-'b'].B },
		set:  func(d any, p byte, b []byte) { (*d.(*[]ownE))[p-'b'].B = b },
		show: func(d any) string { return "" },
		rest: func(b, c, s string) string { return "" },
		keep: func(d any) any { x := append([]ownE(nil), *d.(*[]ownE)...); return &x }},
	{name: "pointers", text: func(b, c, s string) string {
		return `a:3:{s:1:"B";` + str_(b) + `s:1:"C";` + str_(c) + `s:1:"A";a:1:{` + str_(s) + str_(s) + `}}`
	},
		mk:   func() any { return new(ownP) },
		get:  func(d any, p byte) []byte { x := d.(*ownP); return **two(p, &x.B, &x.C) },
		set:  func(d any, p byte, b []byte) { x := d.(*ownP); **two(p, &x.B, &x.C) = b },
		show: func(d any) string { return "" },
		rest: func(b, c, s string) string { return "" },
		keep: func(d any) any { x := *d.(*ownP); b, c := *x.B, *x.C; x.B, x.C = &b, &c; return &x }},
	{name: "bytes from integers", text: func(b, c, s string) string {
		ints := func(x string) string {
			o := []byte(fmt.Sprintf("a:%d:{", len(x)))
			for i := range len(x) {
				o = fmt.Appendf(o, "i:%d;i:%d;", i, x[i])
			}
			return string(o) + "}"
		}
		return `a:2:{i:0;` + ints(b) + `i:1;` + ints(c) + `}`
	},
		mk:   func() any { return new([][]byte) },
		get:  func(d any, p byte) []byte { return (*d.(*[][]byte))[p-'b'] },
		set:  func(d any, p byte, b []byte) { (*d.(*[][]byte))[p-'b'] = b },
		show: func(d any) string { return "" },
		rest: func(b, c, s string) string { return "" },
		keep: func(d any) any { x := append([][]byte(nil), *d.(*[][]byte)...); return &x }},
	famU("keeping Unmarshalers", func(u *keepU) *[]byte { return &u.p }),
	famU("spoiling Unmarshalers", func(u *spoilU) *[]byte { return &u.p }),
	famU("growing Unmarshalers", func(u *growU) *[]byte { return &u.p }),
	{name: "any", text: func(b, c, s string) string {
		return `a:3:{` + str_(s) + str_(b) + `i:1;O:1:"K":1:{` + str_(s) + str_(c) + `}` + str_(b) + `a:1:{i:0;` + str_(s) + `}}`
	},
		mk:   func() any { return new(any) },
		get:  func(d any, p byte) []byte { return nil },
		set:  func(d any, p byte, b []byte) {},
		show: func(d any) string { return fmt.Sprint(*d.(*any)) },
		rest: func(b, c, s string) string {
			return fmt.Sprint(map[any]any{s: b, int64(1): map[string]any{s: c}, b: map[any]any{int64(0): s}})
		},
		keep: func(d any) any { x := *d.(*any); return &x }},
}

func mapKeys(m map[string][]byte) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, "")
}

// the content of parts and strings in text t
func ownContent(t byte, pad string) (b, c, s string) {
	if t == '1' {
		return "first-b-content" + pad, "first c", "a string of the first text"
	}
	return "2nd b", "second c, longer" + pad, "2nd string" + pad
}

var ownPads = []int{30, 60, 110, 200, 500, 1100, 2100, 4200, 9000, 20000, 66000}

func changed(s, mods string) string {
	for _, m := range mods {
		if m == 'w' {
			s = strings.Repeat("w", len(s))
		} else {
			s += "APPENDED"
		}
	}
	return s
}

func change(b []byte, m byte) []byte {
	if m == 'w' {
		for i := range b {
			b[i] = 'w'
		}
		return b
	}
	return append(b, "APPENDED"...)
}

func replayOwn(r *replayer, line string) {
	for i := range ownFamilies {
		replayOwnFamily(r, line, &ownFamilies[i])
	}
}

type ownV2 struct {
	S string
	B []byte
	M map[string]int
	P *int
}

func replayOwnFamily(r *replayer, line string, f *ownFamily) {
	fields := strings.Fields(line) // O ops buf r... k... o...
	fail := func(what string, got, want any) { r.report(f.name+": "+what+" after "+line, got, want) }
	pad := ""
	if h := int(crc32.ChecksumIEEE([]byte(line))) / 3; h%24 == 0 { // some with more bytes
		pad = strings.Repeat("p", ownPads[h/24%len(ownPads)])
	}
	texts := map[byte]string{}
	part := map[string]string{}
	rest := map[byte]string{}
	for _, t := range []byte("12") {
		b, c, s := ownContent(t, pad)
		if f.raw {
			b, c = str_(b), str_(c)
		}
		part["b"+string(t)], part["c"+string(t)] = b, c
		texts[t], rest[t] = f.text(b, c, s), f.rest(b, c, s)
	}
	const slack = 40
	store := make([]byte, len(texts['1'])+len(texts['2'])+slack)
	var buf []byte
	fill := func(t byte) {
		buf = append(store[:0], texts[t]...)
		for i := len(buf); i < len(store); i++ {
			store[i] = 0x55
		}
	}
	fill('1')
	var res, kept []any
	var outs [][]byte
	seven := 7
	room := "a longer string value that needs some room" + pad
	values := []any{[]any{staticM{}, "text", 1.5}, &ownV2{room, []byte("bytes"), map[string]int{"k": 1}, &seven}}
	wants := []string{`a:3:{i:0;s:12:"static bytes";i:1;s:4:"text";i:2;d:1.5;}`, `a:4:{s:1:"S";` + str_(room) + `s:1:"B";s:5:"bytes";s:1:"M";a:1:{s:1:"k";i:1;}s:1:"P";i:7;}`}
	if len(fields[1])%2 == 0 {
		values[0], wants[0] = staticM{}, string(`s:12:"static bytes";`)
	}
	decode := func(d any) bool {
		var err error
		if p := r.call(func() { err = php_Unmarshal(buf, d) }); p != "" || err != nil {
			fail("Unmarshal", fmt.Sprint(p, err), "success")
			return false
		}
		return true
	}
	for _, op := range strings.Split(fields[1][1:], ",") {
		switch op[0] {
		case 'f':
			fill(op[1])
		case 'x':
			for i := range buf {
				buf[i] = '!'
			}
		case 'd':
			d := f.mk()
			if !decode(d) {
				return
			}
			res = append(res, d)
		case 'i':
			d := res[op[1]-'1']
			kept = append(kept, f.keep(d))
			if !decode(d) {
				return
			}
		case 'w', 'a':
			d := res[op[2]-'1']
			f.set(d, op[1], change(f.get(d, op[1]), op[0]))
		case 'e', 'p':
			var v any
			if op[0] == 'e' {
				v = values[op[1]-'1']
			} else {
				v = f.get(res[op[1]-'1'], 'b')
			}
			out, err, p := r.marshalBytes(v)
			if err != nil || p != "" {
				fail("Marshal", fmt.Sprint(p, err), "success")
				return
			}
			outs = append(outs, out)
		case 'o':
			change(outs[op[1]-'1'], 'w')
		case 'q':
			k := op[1] - '1'
			outs[k] = change(outs[k], 'a')
		}
	}
	// everything is as specified
	full := strings.Repeat("!", len(buf))
	if fields[2] != "0" {
		full = texts[fields[2][0]]
	}
	if string(buf) != full {
		fail("the input", string(buf), full)
	}
	for _, x := range store[len(buf):] {
		if x != 0x55 {
			fail("what follows the input", string(store[len(buf):]), "untouched")
			break
		}
	}
	results := func(name string, spec string, ds []any) {
		for i, s := range strings.Split(spec, "/")[1:] {
			p := strings.Split(s, ":")
			for k, w := range []byte("bc") {
				got := f.get(ds[i], w)
				if want := changed(part[string(w)+p[0]], p[k+1]); f.name != "any" && string(got) != want {
					fail(fmt.Sprintf("%s %d part %c", name, i+1, w), string(got), want)
				}
			}
			if got, want := f.show(ds[i]), rest[p[0][0]]; got != want {
				fail(fmt.Sprintf("%s %d", name, i+1), got, want)
			}
		}
	}
	results("result", fields[3], res)
	results("kept result", fields[4], kept)
	for i, s := range strings.Split(fields[5], "/")[1:] {
		p := strings.Split(s, ":")
		var want string
		if p[0][0] == 'v' {
			want = wants[p[0][1]-'1']
		} else {
			want = str_(changed(part["b"+p[0][:1]], p[0][1:]))
			if f.name == "any" {
				want = "s:0:\"\";"
			}
			if f.raw {
				x := changed(part["b"+p[0][:1]], p[0][1:])
				want = fmt.Sprintf("s:%d:\"%s\";", len(x), x)
			}
		}
		if want = changed(want, p[1]); string(outs[i]) != want {
			fail(fmt.Sprintf("output %d", i+1), string(outs[i]), want)
		}
	}
	if string(staticOut) != `s:12:"static bytes";` {
		fail("bytes kept by a Marshaler", string(staticOut), "untouched")
		staticOut = []byte(`s:12:"static bytes";`)
	}
}
