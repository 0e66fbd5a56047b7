package main

import (
	"maps"
	"math"
	"math/big"
	"reflect"
	"slices"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
)

// One profile per property: which types, values and texts its calls use.
// Expectations are not here, they come from the specification.

var profiles = map[string]func(r *run, i int){
	"basic-enc": func(r *run, i int) { r.encRandom() },
	"basic-dec": func(r *run, i int) { r.decRandom() },
	"C01":       withHuge(200, hugeEncode, encText),
	"C02":       withHuge(60, hugeEncode, encNasty),
	"C03":       wrappings,
	"C05":       withHuge(200, hugeDecode, decClean),
	"C06":       withHuge(200, hugeDecode, decMalformed),
	"C07":       hostile,
	"C08":       roundTrip,
	"C09":       integers,
	"C10":       floats,
	"C11":       withHuge(200, hugeDecode, unknownEntries),
	"C12":       destinations,
	"C13":       tags,
	"C14":       stringOption,
	"C15":       withHuge(300, hugeEncode, marshalers),
	"C16":       withHuge(200, hugeDecode, unmarshalers),
	"C17":       withHuge(300, hugeDecode, intoAny),
	"C19":       lateLook,
	"C21":       support,
	"C22":       withHuge(100, hugeDecode, objects),
	"C23":       sequences,
	"together":  together,
	"graphs":    typeGraphs,
}

func (g *gen) value(t reflect.Type, d int, mode dumpMode) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, d, mode)
	return v
}

func (r *run) encRandom() {
	t := r.typ(r.o.maxDepth, false)
	r.encode(encCase{v: r.value(t, 4, encMode).Interface()})
}

func (r *run) decRandom() {
	t := r.typ(r.o.maxDepth, true)
	s := r.wire(t, r.o.maxDepth).String()
	if r.p(r.o.pMut) {
		s = r.mutate(s)
	}
	k := decCase{rt: t, in: []byte(s)}
	if r.p(r.o.pOld) {
		k.old = r.value(t, 4, decMode)
	}
	r.decode(k)
}

// sizes around digit-count and buffer-growth boundaries
func (g *gen) bigSize() int {
	if g.p(.5) {
		return pick(g, []int{9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257})
	}
	return 1 + g.Intn(300)
}

func (g *gen) bigString(n int) string {
	b := make([]byte, n)
	switch g.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
	case 1:
		for i := range b {
			b[i] = pick(g, []byte(`";}{:N0`))
		}
	case 2:
		for i := range b {
			b[i] = "名前é😀"[i%len("名前é😀")]
		}
	default:
		for i := range b {
			b[i] = 'a'
		}
	}
	return string(b)
}

// a large value of a supported type
func (g *gen) bigValue() any {
	n := g.bigSize()
	switch g.Intn(12) {
	case 0:
		return g.bigString(pick(g, []int{n, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 65537}))
	case 1:
		return []byte(g.bigString(pick(g, []int{n, 1000, 1024, 4096, 5000})))
	case 2:
		s := make([]int, n)
		for i := range s {
			s[i] = int(g.int64())
		}
		return s
	case 3:
		m := map[int]string{}
		for range n {
			m[int(g.int64())+g.Intn(5000)] = g.str()
		}
		return m
	case 4:
		m := map[string]any{}
		for range n {
			m[g.str()+strconv.Itoa(g.Intn(1000))] = g.value(reflect.TypeFor[any](), 2, encMode).Interface()
		}
		return m
	case 5:
		s := make([]any, n)
		for i := range s {
			s[i] = g.value(reflect.TypeFor[any](), 2, encMode).Interface()
		}
		return s
	case 6: // wide structs
		var fs []reflect.StructField
		for i := range min(n, 120) {
			f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: g.typ(1, false)}
			if g.p(.5) {
				f.Tag = quoteTag("f" + strconv.Itoa(i) + ",omitempty")
			}
			fs = append(fs, f)
		}
		return g.value(reflect.StructOf(fs), 3, encMode).Interface()
	case 7: // structs in structs in slices: buffers taken while others are in use
		t := g.structType(2, false)
		for range 1 + g.Intn(2) {
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.SliceOf(t), Tag: `php:"a"`}, {Name: "B", Type: t}, {Name: "C", Type: reflect.TypeFor[string]()},
				{Name: "D", Type: reflect.MapOf(reflect.TypeFor[string](), t), Tag: `php:"d,omitempty"`}})
		}
		return g.value(t, 6, encMode).Interface()
	case 8:
		t := reflect.ArrayOf(n, g.typ(1, false))
		return g.value(t, 3, encMode).Interface()
	case 9:
		n = min(n, 60)
		var x any = g.str()
		for range n {
			switch g.Intn(4) {
			case 0:
				x = []any{x}
			case 1:
				x = map[string]any{g.str(): x}
			case 2:
				x = struct{ V any }{x}
			case 3:
				y := x
				x = &y
			}
		}
		return x
	case 10:
		m := map[string]string{}
		for range n {
			m[g.bigString(1+g.Intn(40))+strconv.Itoa(g.Intn(10000))] = g.bigString(g.Intn(200))
		}
		return m
	}
	s := make([]string, n)
	for i := range s {
		s[i] = g.bigString(g.Intn(60))
	}
	return s
}

// ---- C01, C02

func encText(r *run, i int) {
	switch {
	case i%16 == 0:
		r.encode(encCase{v: r.bigValue()})
	case i%8 == 1:
		r.o.width = 8
		r.o.pCont = .6
		r.encRandom()
	case i%8 == 2: // plain scalars, pointers and named types
		t := r.scalar()
		r.o.extreme = .6
		r.encode(encCase{v: r.value(t, 3, encMode).Interface()})
		r.encode(encCase{v: r.value(reflect.PointerTo(t), 3, encMode).Interface()})
	case i%8 == 3: // everything nil
		r.o.pNilVal = .6
		r.o.pPtr = .3
		r.encRandom()
	case i%8 == 4:
		r.o.maxDepth = 5
		r.encRandom()
	default:
		r.encRandom()
	}
}

func encNasty(r *run, i int) {
	r.o.strLen, r.o.valid, r.o.pCount = 300, true, 0
	switch {
	case i%8 == 0:
		r.encode(encCase{v: r.bigValue()})
	case i%8 == 4: // large parts of small values
		var x any = r.bigValue()
		if r.p(.5) {
			x = r.bigString(pick(r.gen, []int{1000, 2000, 4090, 4096, 5000, 9000}))
		}
		for range 1 + r.Intn(3) {
			y := r.value(reflect.TypeFor[any](), 2, encMode).Interface()
			x = pick(r.gen, []any{[]any{x, y}, map[string]any{"k": x, "l": y}, struct{ K, L any }{x, y}, map[int]any{1: x, -1: y}, []any{y, x}, &struct {
				K any `php:"k,omitempty"`
				L any `php:"l,omitempty"`
			}{y, x}})
		}
		r.encode(encCase{v: x})
	case i%4 == 1: // well-formed text from MarshalPHP between the library's own
		r.o.pMarsh = .15
		r.o.pStrOpt = .3
		r.encRandom()
	case i%4 == 2:
		r.o.pStrOpt, r.o.pOmit, r.o.pStruct, r.o.extreme = .5, .5, .6, .6
		r.encode(encCase{v: r.value(r.structType(3, false), 5, encMode).Interface()})
	default:
		r.o.maxDepth, r.o.width = 5, 5
		r.encRandom()
	}
	if i%10 == 0 { // a large result first, then small ones from the same buffers
		r.encode(encCase{v: r.bigString(3000 + r.Intn(3000))})
		r.encode(encCase{v: struct {
			A int `php:"a,omitempty"`
			B struct{ S string }
		}{B: struct{ S string }{r.str()}}})
	}
}

// ---- C03

type wrapStruct struct {
	V any `php:"v"`
}

func (r *run) wrap(v reflect.Value) reflect.Value {
	t := v.Type()
	elem := func(et reflect.Type) reflect.Value {
		x := reflect.New(et).Elem()
		x.Set(v)
		return x
	}
	anyT := reflect.TypeFor[any]()
	et := t
	if r.p(.5) {
		et = anyT
	}
	if t.Implements(reflect.TypeFor[Named]()) && r.p(.5) {
		et = namedType
	}
	switch r.Intn(10) {
	case 0: // pointer
		if t.Kind() == reflect.Ptr {
			return elem(anyT)
		}
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	case 1: // interface holding it
		return elem(anyT)
	case 2:
		s := reflect.MakeSlice(reflect.SliceOf(et), 0, 3)
		for range 1 + r.Intn(2) {
			s = reflect.Append(s, v)
		}
		return s
	case 3:
		s := reflect.New(reflect.ArrayOf(1+r.Intn(2), et)).Elem()
		for i := range s.Len() {
			s.Index(i).Set(v)
		}
		return s
	case 4:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), et))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		if r.p(.4) {
			m.SetMapIndex(reflect.ValueOf("l"), v)
		}
		return m
	case 5:
		m := reflect.MakeMap(reflect.MapOf(pick(r.gen, []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[uint64](), reflect.TypeFor[NInt](), reflect.TypeFor[uint16]()}), et))
		m.SetMapIndex(reflect.ValueOf(3).Convert(m.Type().Key()), v)
		return m
	case 6:
		fs := []reflect.StructField{{Name: "F", Type: et, Tag: pick(r.gen, []reflect.StructTag{"", `php:"f"`, `php:"f,omitempty"`})}}
		if r.p(.5) {
			fs = append(fs, reflect.StructField{Name: "G", Type: reflect.TypeFor[int](), Tag: `php:"g"`})
		}
		x := reflect.New(reflect.StructOf(fs)).Elem()
		x.Field(0).Set(v)
		return x
	case 7: // *any
		p := reflect.New(anyT)
		p.Elem().Set(v)
		return p
	case 8: // pointer to pointer held by an interface
		p := reflect.New(t)
		p.Elem().Set(v)
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		x := reflect.New(anyT).Elem()
		x.Set(pp)
		return x
	}
	return reflect.ValueOf(wrapStruct{v.Interface()})
}

// pointer-to-pointer types are only encodable inside an interface
func held(v reflect.Value) any {
	return v.Interface()
}

func wrappings(r *run, i int) {
	r.o.maxDepth = 2
	if i%5 == 0 {
		r.o.pMarsh = .3
	}
	var t reflect.Type
	switch i % 4 {
	case 0:
		t = r.scalar()
	case 1:
		t = pick(r.gen, []reflect.Type{reflect.TypeFor[NamedInt](), reflect.TypeFor[NamedStr](), reflect.TypeFor[*NamedStr](), reflect.TypeFor[*NamedInt]()})
	default:
		t = r.typ(2, false)
	}
	v := r.value(t, 4, encMode)
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		v = reflect.ValueOf(5)
	}
	ctl, _, _ := r.encode(encCase{v: v.Interface(), note: "direct", quiet: true})
	for range 6 {
		w := r.wrap(v)
		for range r.Intn(3) {
			w = r.wrap(w)
		}
		r.encode(encCase{v: held(w), ctl: ctl, note: "wrapped"})
	}
}

// ---- C05

func (r *run) clean() {
	r.o.pMut, r.o.pWrong, r.o.pCount, r.o.pOld, r.o.pRange, r.o.pUnknown, r.o.valid = 0, 0, 0, 0, 0, .05, true
}

// the text of a large array or string for a simple destination
func (r *run) bigText() (reflect.Type, string) {
	n := r.bigSize()
	switch r.Intn(6) {
	case 0:
		s := r.bigString(pick(r.gen, []int{n, 1000, 1024, 4096, 9999, 10000, 65535, 65536, 65537}))
		return pick(r.gen, []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[[]byte](), reflect.TypeFor[any](), reflect.TypeFor[NStr](), reflect.TypeFor[*string]()}), wS(s).String()
	case 1, 2:
		t := pick(r.gen, []reflect.Type{reflect.TypeFor[[]int](), reflect.TypeFor[[]string](), reflect.TypeFor[[]any](), reflect.TypeFor[[]*string](), reflect.TypeFor[[][]int](),
			reflect.TypeFor[[]map[string]int](), reflect.TypeFor[[64]int](), reflect.TypeFor[[]struct{ A, B string }]()})
		w := wA()
		for j := range n {
			w.E = append(w.E, WE{wI(strconv.Itoa(j)), r.wire(t.Elem(), 2)})
		}
		if r.p(.3) {
			r.jumble(w)
		}
		return t, w.String()
	case 3, 4:
		t := pick(r.gen, []reflect.Type{reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string]string](), reflect.TypeFor[map[int]any](), reflect.TypeFor[any](), reflect.TypeFor[map[any]any](),
			reflect.TypeFor[map[string][]string](), reflect.TypeFor[map[uint64]*int]()})
		w := wA()
		for j := range n {
			k := wI(strconv.Itoa(j * 7))
			if t.Kind() != reflect.Interface && t.Key().Kind() == reflect.String {
				k = wS(r.str() + strconv.Itoa(j))
			}
			v := r.randWire(1)
			if t.Kind() != reflect.Interface {
				v = r.wire(t.Elem(), 2)
			}
			w.E = append(w.E, WE{k, v})
		}
		return t, w.String()
	}
	t := r.typ(2, true)
	s := r.wire(t, 2).String()
	for range min(n, 40) {
		if r.p(.5) {
			t = reflect.SliceOf(t)
			s = "a:1:{i:0;" + s + "}"
		} else {
			t = reflect.MapOf(reflect.TypeFor[string](), t)
			s = `a:1:{s:1:"k";` + s + "}"
		}
	}
	return t, s
}

type leaves struct {
	A []byte
	B string
	C *[]byte
	D *string
	E float64
	F bool
	G uint8
	H [2]string
	I []int
	J map[string]string
	K int `php:",string"`
	L struct{ X []byte }
}

var zeroDests = []reflect.Type{reflect.TypeFor[leaves](), reflect.TypeFor[*leaves](), reflect.TypeFor[struct{ A, B []byte }](), reflect.TypeFor[[]byte](), reflect.TypeFor[[2][]byte](),
	reflect.TypeFor[**[]byte](), reflect.TypeFor[[2]leaves](), reflect.TypeFor[[]*string](), reflect.TypeFor[struct {
		A NStr
		B *NStr
		C [3]int
		D *bool
		E *float32
	}]()}

func decClean(r *run, i int) {
	r.clean()
	if i%4 == 3 {
		r.o.pOld = .7
	}
	switch {
	case i%24 == 0:
		t, s := r.bigText()
		r.decode(decCase{rt: t, in: []byte(s)})
		return
	case i%24 == 7: // zeros and empty values where something else was
		r.o.pZero, r.o.pNilVal = .6, 0
		t := r.typ(2, true)
		if r.p(.7) {
			t = pick(r.gen, zeroDests)
		}
		r.decode(decCase{rt: t, in: []byte(r.wire(t, 3).String()), old: r.value(t, 4, decMode)})
		return
	case i%8 == 1:
		r.o.maxDepth, r.o.width = 5, 4
	case i%8 == 2:
		r.o.pAny = .5
	case i%8 == 3:
		r.o.pStruct = .6
	case i%8 == 4:
		r.o.pPtr, r.o.pNull = .4, .2
	case i%8 == 5:
		r.o.pObj, r.o.pShuffle, r.o.pSparse = .8, .8, .5
	case i%8 == 6:
		r.o.pRec = .4
	}
	r.decRandom()
}

// ---- C06

func decMalformed(r *run, i int) {
	r.o.pOld = .1
	r.o.pUnknown, r.o.pUnm = .3, .04
	r.o.maxDepth = 2
	switch {
	case i%10 == 0: // every prefix, the text itself, and extra bytes after it
		r.clean()
		r.o.width = 2
		t := r.typ(2, true)
		s := r.wire(t, 2).String()
		if len(s) > 60 {
			s = s[:60]
		}
		for k := range len(s) {
			r.decode(decCase{rt: t, in: []byte(s[:k]), note: "prefix"})
		}
		for _, x := range []string{"x", " ", "\n", "\x00", ";", "}", "N;", s} {
			r.decode(decCase{rt: t, in: []byte(s + x), note: "extra"})
		}
	case i%10 == 1: // every position with a few other bytes
		r.clean()
		r.o.width = 2
		t := r.typ(2, true)
		s := r.wire(t, 2).String()
		if len(s) > 40 {
			s = r.wire(r.scalar(), 1).String()
		} else if r.p(.3) { // something that is skipped
			t, s = reflect.TypeFor[inner](), `a:1:{s:1:"x";`+r.randWire(1+r.Intn(2)).String()+"}"
		}
		for k := range len(s) {
			b := []byte(s)
			b[k] = pick(r.gen, editBytes)
			r.decode(decCase{rt: t, in: b, note: "byte"})
			b = append(append([]byte(s[:k]), pick(r.gen, editBytes)), s[k:]...)
			r.decode(decCase{rt: t, in: b, note: "insert"})
			r.decode(decCase{rt: t, in: append([]byte(s[:k]), s[k+1:]...), note: "remove"})
			if n := 2 + r.Intn(4); k+n <= len(s) {
				r.decode(decCase{rt: t, in: []byte(s[:k] + s[k+n:]), note: "remove"})
			}
		}
	case i%10 == 2: // a text for another type
		r.clean()
		r.o.pNull = 0
		t, u := r.typ(2, true), r.typ(2, true)
		r.decode(decCase{rt: t, in: []byte(r.wire(u, 2).String()), note: "other type"})
	case i%10 == 3: // wrong value somewhere
		r.o.pWrong, r.o.pMut = .25, 0
		r.decRandom()
	case i%10 == 4: // range errors
		r.o.pRange, r.o.pMut = .6, 0
		r.decRandom()
	case i%10 == 5: // wrong string lengths
		r.clean()
		t := r.typ(2, true)
		s := r.wire(t, 3).String()
		if at := strings.LastIndex(s[:r.Intn(len(s))+1], "s:"); at >= 0 {
			end := strings.IndexByte(s[at+2:], ':')
			if end > 0 {
				n, err := strconv.Atoi(s[at+2 : at+2+end])
				if err == nil {
					l := strconv.Itoa(n + pick(r.gen, []int{-2, -1, 1, 2, 3, 5, 100}))
					if r.p(.3) {
						l = pick(r.gen, []string{"", "-1", "+1", "0x1", "9223372036854775807", "9223372036854775806", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
							"4294967296", "4294967297", " 1", "1e1", strconv.Itoa(n) + " ", r.nearLimit(len(s) + 5), r.nearLimit(len(s) + 5), strconv.FormatUint(uint64(n)+1<<pick(r.gen, []uint{8, 16, 32, 63}), 10)})
					}
					s = s[:at+2] + l + s[at+2+end:]
				}
			}
		}
		r.decode(decCase{rt: t, in: []byte(s), note: "length"})
	case i%10 == 6: // wrong kinds of keys
		r.clean()
		t := pick(r.gen, []reflect.Type{reflect.TypeFor[[]int](), reflect.TypeFor[map[string]int](), reflect.TypeFor[map[int]string](), reflect.TypeFor[map[any]any](), reflect.TypeFor[any](),
			reflect.TypeFor[struct{ A int }](), reflect.TypeFor[[2]string](), reflect.TypeFor[map[uint8]bool](), reflect.TypeFor[UStruct](), reflect.TypeFor[*struct {
				B any `php:"b"`
			}](), reflect.TypeFor[[]struct{}](), reflect.TypeFor[[0]int]()})
		w := wA()
		for range 1 + r.Intn(3) {
			k := pick(r.gen, []*W{wS("A"), wS("b"), wS("0"), wI("0"), wI("1"), wI("-1"), wN(), wB(true), wD("1"), wD("0.5"), wA(), wA(WE{wI("0"), wI("0")}), {K: 'O', Cls: "A", Cnt: -1}, wI("18446744073709551615"), wI("9223372036854775808")})
			v := r.randWire(1)
			if t.Kind() == reflect.Map || t.Kind() == reflect.Slice {
				v = r.wire(t.Elem(), 1)
			}
			w.E = append(w.E, WE{k, v})
		}
		r.obj(w)
		r.decode(decCase{rt: t, in: []byte(w.String()), note: "keys"})
	default:
		r.o.pMut, r.o.pCount = 1, .05
		for range 4 {
			r.decRandom()
		}
	}
}

// ---- C07

var hugeCounts = []string{"0", "1", "2", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "1000000000000", "9223372036854775807", "9223372036854775806",
	"9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "-1", "-9223372036854775808", "4611686018427387904", "576460752303423488", "1152921504606846976", ""}

func hostile(r *run, i int) {
	r.o.pBad, r.o.pUnm, r.o.pMarsh, r.o.pIface, r.o.pRec, r.o.dupTags = .04, .06, .06, .05, .1, .3
	r.o.pMut, r.o.pWrong = .5, .1
	r.measure = true
	if i%25 == 7 { // keys of all kinds in maps with keys of all types
		kt := pick(r.gen, []reflect.Type{reflect.TypeFor[any](), reflect.TypeFor[UKey](), reflect.TypeFor[*UKey](), reflect.TypeFor[Named](), reflect.TypeFor[*string](), reflect.TypeFor[*int](), reflect.TypeFor[bool](), reflect.TypeFor[uintptr](),
			reflect.TypeFor[UArr](), reflect.TypeFor[struct{ A any }](), reflect.TypeFor[[1]any](), reflect.TypeFor[float64](), reflect.TypeFor[chan int](), reflect.TypeFor[php.Unmarshaler](), reflect.TypeFor[*any](), reflect.TypeFor[[0]int](), reflect.TypeFor[NStr](), reflect.TypeFor[*UFail]()})
		t := reflect.MapOf(kt, pick(r.gen, []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[any](), reflect.TypeFor[*UKey](), kt}))
		for range 10 {
			w := wA()
			for range 1 + r.Intn(3) {
				w.E = append(w.E, WE{pick(r.gen, []*W{wS("k"), wS("no!"), wI("5"), wI("-1"), wN(), wB(true), wD("1.5"), wA(), wA(WE{wI("0"), wS("!")}), {K: 'O', T: "A"}}), pick(r.gen, []*W{wI("1"), wS("no!"), wN(), wA()})})
			}
			r.decode(decCase{rt: t, in: []byte(w.String())})
		}
		return
	}
	switch i % 8 {
	case 0: // declared sizes
		texts := []string{}
		n := pick(r.gen, hugeCounts)
		if r.p(.4) {
			n = r.nearLimit(40)
		}
		for _, f := range []string{"a:#:{", "a:#:{}", "a:#:{i:0;i:0;}", "s:#:\"", "s:#:\"a\";", "O:1:\"A\":#:{}", "O:#:\"A\":0:{}", "O:#:\"A\":#:{", "a:1:{i:0;a:#:{}}", "a:1:{s:1:\"A\";a:#:{}}",
			"a:1:{s:1:\"A\";s:#:\"x\";}", "a:1:{s:#:\"A\";i:1;}", "a:1:{i:0;s:#:\"A\";}", "a:1:{s:1:\"q\";a:#:{i:0;N;}}", "a:1:{s:1:\"q\";s:#:\"x\";}", "a:2:{i:0;N;i:1;O:#:\"x\":#:{}}", "a:#", "s:#", "O:#", "a:#:", "s:#:"} {
			texts = append(texts, strings.ReplaceAll(f, "#", n))
		}
		for range 6 {
			t := r.typ(2, true)
			if r.p(.5) {
				t = pick(r.gen, []reflect.Type{reflect.TypeFor[any](), reflect.TypeFor[[]int](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[int]string](), reflect.TypeFor[string](), reflect.TypeFor[[]byte](),
					reflect.TypeFor[struct{ A any }](), reflect.TypeFor[struct{ A []string }](), reflect.TypeFor[UStruct](), reflect.TypeFor[[]struct{}](), reflect.TypeFor[map[any]any](), reflect.TypeFor[[2]any](),
					reflect.TypeFor[struct{ A map[string]int }](), reflect.TypeFor[[]string](), reflect.TypeFor[map[struct{ X [100]int }]int]()})
			}
			for range 4 {
				r.decode(decCase{rt: t, in: []byte(pick(r.gen, texts))})
			}
		}
	case 1: // destinations that are not non-nil pointers
		in := []byte(r.wire(r.typ(2, true), 2).String())
		r.decodeBadDst(in)
	case 2: // arbitrary bytes
		for range 10 {
			b := make([]byte, r.Intn(30))
			for j := range b {
				if r.p(.3) {
					b[j] = byte(r.Intn(256))
				} else {
					b[j] = pick(r.gen, editBytes)
				}
			}
			r.decode(decCase{rt: r.typ(2, true), in: b})
		}
	case 3: // indexes
		t := pick(r.gen, []reflect.Type{reflect.TypeFor[[]int](), reflect.TypeFor[[]struct{}](), reflect.TypeFor[[3]int](), reflect.TypeFor[[0]string](), reflect.TypeFor[[]string](), reflect.TypeFor[[][0]int](), reflect.TypeFor[[][]int](),
			reflect.TypeFor[struct{ A [2]int }]()})
		r.measure = false
		for range 6 {
			idx := pick(r.gen, []string{"0", "1", "5", "100", "2999", "-1", "-9223372036854775808", "9223372036854775807", "9223372036854775806", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1152921504606846976",
				"2305843009213693951", "4611686018427387904", "99999999999999999999999", "00", "01", "-0"})
			r.decode(decCase{rt: t, in: []byte("a:1:{i:" + idx + ";" + r.wire(elemOf(t), 1).String() + "}")})
		}
	case 4: // unsupported parts in all places
		r.o.pBad = .3
		t := r.typ(3, true)
		r.decode(decCase{rt: t, in: []byte(r.wire(t, 2).String())})
		r.decode(decCase{rt: t, in: []byte(r.randWire(2).String())})
		u := r.typ(3, false)
		v := r.value(u, 4, encMode)
		r.encode(encCase{v: v.Interface()})
		r.encode(encCase{v: []any{v.Interface()}})
		r.encode(encCase{v: reflect.Zero(u).Interface()})
	case 5:
		r.o.pMarshErr = .2
		for range 3 {
			r.encRandom()
		}
	default:
		for range 4 {
			r.decRandom()
		}
	}
}

func elemOf(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		return t.Elem()
	}
	return reflect.TypeFor[int]()
}

// ---- C08

func roundTrip(r *run, i int) {
	r.o.rtSafe, r.o.pIface, r.o.valid, r.o.pCount, r.o.pMut, r.o.pWrong = true, 0, true, 0, 0, 0
	r.o.longFloat = .3
	switch i % 8 {
	case 1:
		r.o.maxDepth, r.o.width = 5, 4
	case 2:
		r.o.pStruct, r.o.pTag = .6, .8
	case 3:
		r.o.pRec = .4
	case 4:
		r.o.pPtr, r.o.pNilVal = .4, .35
	case 5:
		r.o.extreme = .9
	case 6:
		r.o.pUnm = .15
	}
	var t reflect.Type
	if i%8 == 7 {
		t = r.structType(3, true)
	} else {
		t = r.typ(r.o.maxDepth, true)
	}
	v := r.value(t, 5, encMode)
	_, out, ok := r.encode(encCase{v: v.Interface(), note: "round trip"})
	if !ok {
		return
	}
	tt := newTypeTable()
	tt.add(t)
	r.decode(decCase{rt: t, in: out, orig: v, canon: true, note: "round trip"})
}

// ---- C09

type withInts struct {
	t    reflect.Type
	text func(i string) string
}

func intPlaces(t reflect.Type) []withInts {
	el := func(k string) func(string) string {
		return func(i string) string { return "a:1:{" + k + "i:" + i + ";}" }
	}
	str := func(i string) string { return `a:1:{s:1:"a";s:` + strconv.Itoa(len(i)) + `:"` + i + `";}` }
	field := func(ft reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: ft, Tag: reflect.StructTag(tag)}})
	}
	out := []withInts{
		{t, func(i string) string { return "i:" + i + ";" }},
		{reflect.PointerTo(t), func(i string) string { return "i:" + i + ";" }},
		{reflect.SliceOf(t), el("i:0;")},
		{reflect.ArrayOf(1, t), el("i:0;")},
		{reflect.MapOf(reflect.TypeFor[string](), t), el(`s:1:"k";`)},
		{reflect.MapOf(t, reflect.TypeFor[bool]()), func(i string) string { return "a:1:{i:" + i + ";b:1;}" }},
		{field(t, `php:"a"`), el(`s:1:"a";`)},
		{field(reflect.PointerTo(t), `php:"a"`), el(`s:1:"a";`)},
		{field(t, `php:"a,string"`), str},
		{field(reflect.PointerTo(t), `php:"a,string,omitempty"`), str},
	}
	if t.Kind() != reflect.Uint8 && t.Kind() != reflect.Int8 {
		out = append(out, withInts{reflect.MapOf(t, t), func(i string) string { return "a:1:{i:" + i + ";i:" + i + ";}" }})
	}
	return out
}

var intTypes = []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
	reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](), reflect.TypeFor[uintptr](),
	reflect.TypeFor[NInt](), reflect.TypeFor[NInt8](), reflect.TypeFor[NUint64](), reflect.TypeFor[NUint8](), reflect.TypeFor[NInt32](), reflect.TypeFor[NUint16]()}

// all the decimal texts around powers of two and ten, and then some
func edgeTexts() []string {
	set := map[string]bool{}
	add := func(neg bool, u uint64) {
		s := strconv.FormatUint(u, 10)
		if neg {
			s = "-" + s
		}
		set[s] = true
	}
	for b := range 64 {
		for d := -1; d <= 1; d++ {
			add(false, uint64(1)<<b+uint64(d))
			add(true, uint64(1)<<b+uint64(d))
		}
	}
	p := uint64(1)
	for range 20 {
		for d := -1; d <= 1; d++ {
			add(false, p+uint64(d))
			add(true, p+uint64(d))
		}
		p *= 10
	}
	add(false, math.MaxUint64)
	for _, s := range []string{"18446744073709551616", "18446744073709551617", "18446744073709551871", "18446744073709551872", "36893488147419103232", "27670116110564327424", "99999999999999999999",
		"100000000000000000000", "184467440737095516150", "184467440737095516160", "-9223372036854775809", "-18446744073709551616", "-18446744073709551615", "-27670116110564327424", "-99999999999999999999",
		"340282366920938463463374607431768211456", "-340282366920938463463374607431768211456", "00", "01", "007", "-01", "-0", "-00", "000000000000000000000000000000", "0000000000000000000000000000127",
		"-0000000000000000000000000000128", "0000000000000000000000000000128", "00018446744073709551615", "09223372036854775808", "10000000000000000000", "20000000000000000000", "19999999999999999999",
		"28446744073709551615", "11111111111111111111", "9999999999999999999"} {
		set[s] = true
	}
	out := make([]string, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sortStrings(out)
	return out
}

func integers(r *run, i int) {
	t := intTypes[i%len(intTypes)]
	places := intPlaces(t)
	pl := places[(i/len(intTypes))%len(places)]
	round := i / len(intTypes) / len(places)
	if t.Kind() == reflect.Uintptr && strings.Contains(string(pl.t.String()), "string") {
		pl = places[0]
	}
	var texts []string
	switch {
	case round == 0: // every edge text in this place
		texts = edges
	case round == 1: // every text of up to three digits
		for k := -300; k <= 300; k++ {
			texts = append(texts, strconv.Itoa(k))
		}
	default:
		r.o.pRange, r.o.extreme = .7, .5
		for range 30 {
			texts = append(texts, r.intText())
		}
	}
	for _, s := range texts {
		r.decode(decCase{rt: pl.t, in: []byte(pl.text(s)), note: "integer " + s})
	}
	// and written
	if t.Kind() == reflect.Uintptr {
		return
	}
	signed := t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
	for _, s := range texts {
		x := reflect.New(t).Elem()
		if signed {
			n, err := strconv.ParseInt(s, 10, t.Bits())
			if err != nil {
				continue
			}
			x.SetInt(n)
		} else {
			n, err := strconv.ParseUint(s, 10, t.Bits())
			if err != nil {
				continue
			}
			x.SetUint(n)
		}
		v := reflect.New(pl.t).Elem()
		place(v, x)
		r.encode(encCase{v: v.Interface(), note: "integer " + s})
		if r.p(.1) {
			r.encode(encCase{v: []any{v.Interface(), map[string]any{"x": x.Interface()}, wrapStruct{x.Interface()}}, note: "integer in any " + s})
		}
	}
}

// puts x into every place of type x's in v
func place(v, x reflect.Value) {
	if v.Type() == x.Type() {
		v.Set(x)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		place(v.Elem(), x)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		place(v.Index(0), x)
	case reflect.Array:
		place(v.Index(0), x)
	case reflect.Struct:
		place(v.Field(0), x)
	case reflect.Map:
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		place(k, x)
		place(e, x)
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(k, e)
	}
}

// ---- C10

func (r *run) floatPlace(t reflect.Type) withInts {
	el := func(k string) func(string) string {
		return func(i string) string { return "a:1:{" + k + "d:" + i + ";}" }
	}
	str := func(i string) string { return `a:1:{s:1:"a";s:` + strconv.Itoa(len(i)) + `:"` + i + `";}` }
	field := func(ft reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: ft, Tag: reflect.StructTag(tag)}})
	}
	plain := func(i string) string { return "d:" + i + ";" }
	xs := []withInts{
		{t, plain}, {t, plain},
		{reflect.PointerTo(t), plain},
		{reflect.SliceOf(t), el("i:0;")},
		{reflect.ArrayOf(1, t), el("i:0;")},
		{reflect.MapOf(reflect.TypeFor[string](), t), el(`s:1:"k";`)},
		{field(t, `php:"a"`), el(`s:1:"a";`)},
		{field(t, `php:"a,string"`), str},
		{field(reflect.PointerTo(t), `php:"a,string"`), str},
	}
	if t.Bits() == 64 && t.Name() == "float64" {
		xs = append(xs, withInts{reflect.TypeFor[any](), plain}, withInts{reflect.TypeFor[map[string]any](), el(`s:1:"k";`)})
	}
	return pick(r.gen, xs)
}

func floats(r *run, i int) {
	t := pick(r.gen, []reflect.Type{reflect.TypeFor[float64](), reflect.TypeFor[float64](), reflect.TypeFor[float32](), reflect.TypeFor[NF64](), reflect.TypeFor[NF32]()})
	pl := r.floatPlace(t)
	for range 4 {
		switch r.Intn(7) {
		case 5, 6: // decimals of any length
			s := r.longDecimal(t.Bits())
			r.decode(decCase{rt: pl.t, in: []byte(pl.text(s)), note: "long"})
		case 0: // decimals of up to 15 (6) digits, in different spellings
			s := r.floatWire(t.Bits())
			r.decode(decCase{rt: pl.t, in: []byte(pl.text(s)), note: "decimal"})
		case 1: // the shortest form of any float
			r.o.longFloat = 1
			f := r.float(t.Bits())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				continue
			}
			s := strconv.FormatFloat(f, 'e', -1, t.Bits())
			if math.Abs(f) >= 1e-6 && math.Abs(f) < 1e21 && r.p(.5) {
				s = strconv.FormatFloat(f, 'f', -1, t.Bits())
			}
			r.decode(decCase{rt: pl.t, in: []byte(pl.text(s)), canon: true, note: "shortest"})
		case 2: // not a number, or too large
			s := pick(r.gen, []string{"1e400", "-1e309", "1e39", "-3.5e38", "1e1000", "abc", "1.2.3", "1e", "e5", "--1", ".", "+", "", "1 ", " 1", "1,5", "-", "1e+", "1e5.5", "1-1", "0..1", "1;2", "N", "-.",
				"1.8e308", "3.4028236e38", "1e308", "3.4e38", "1e99999999999", "-1e99999999999", "1x", "0b1", "\x00", "1\x00", "é", "1e5e5", "+-1"})
			if r.p(.3) {
				s = r.mutate(s)
			}
			r.decode(decCase{rt: pl.t, in: []byte(pl.text(s)), note: "bad"})
		case 3: // around the switch between the forms
			f := math.Pow10(pick(r.gen, []int{-7, -6, -5, -1, 0, 1, 5, 15, 16, 17, 20, 21, 22}))
			if r.p(.5) {
				f *= 1 + float64(r.Intn(9))
			}
			if r.p(.3) {
				f = math.Nextafter(f, pick(r.gen, []float64{0, math.Inf(1)}))
			}
			if r.p(.3) {
				f = -f
			}
			r.writeFloat(t, pl.t, f)
		default:
			r.o.longFloat = .5
			r.writeFloat(t, pl.t, r.float(t.Bits()))
		}
	}
}

// numbers in the middle of two floats, or close to that, or of many digits
func (r *run) longDecimal(bits int) string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		return string(b)
	}
	s := ""
	switch r.Intn(5) {
	case 0:
		s = digits(1+r.Intn(40)) + "." + digits(r.Intn(40))
	case 1:
		s = pick(r.gen, []string{"0.", "0.000000", "0.0000000000000000000000000000000000000000"}) + digits(1+r.Intn(40))
	case 2:
		s = digits(15 + r.Intn(10))
	default:
		r.o.longFloat = .7
		var f float64
		for f = r.float(bits); f-f != 0; f = r.float(bits) {
		}
		if r.p(.15) { // subnormal
			f = math.Float64frombits(r.Uint64() >> (12 + r.Intn(50)))
			if bits == 32 {
				f = float64(math.Float32frombits(r.Uint32() >> (9 + r.Intn(20))))
			}
		}
		m := new(big.Float).SetPrec(3000).SetFloat64(f)
		next := math.Nextafter(f, math.Inf(1))
		if bits == 32 {
			next = float64(math.Nextafter32(float32(f), float32(math.Inf(1))))
		}
		if next-next == 0 && r.p(.8) {
			m.Add(m, new(big.Float).SetFloat64(next))
			m.Quo(m, big.NewFloat(2))
		}
		n := pick(r.gen, []int{16, 17, 18, 19, 20, 25, 60, 120, 1100})
		mant, exp, _ := strings.Cut(m.Text('e', n), "e")
		if i := strings.IndexByte(mant, '.'); i >= 0 {
			mant = strings.TrimRight(mant, "0")
		}
		switch r.Intn(4) {
		case 0: // a little more
			mant += strings.Repeat("0", r.Intn(30)) + digits(1)
		case 1: // a little more or less
			b := []byte(mant)
			if at := len(b) - 1; b[at] >= '0' && b[at] <= '9' {
				b[at] = byte('0' + r.Intn(10))
			}
			mant = string(b)
		}
		s = mant + "e" + exp
		if r.p(.3) && m.IsInt() {
			s = m.Text('f', 0)
		}
		return s
	}
	if r.p(.3) {
		s += "e" + strconv.Itoa(r.Intn(2*bits)-bits)
	}
	if r.p(.3) {
		s = "-" + s
	}
	return s
}

func (r *run) writeFloat(t, place_ reflect.Type, f float64) {
	x := reflect.New(t).Elem()
	x.SetFloat(f)
	v := reflect.New(place_).Elem()
	if place_.Kind() == reflect.Interface {
		v.Set(x)
	} else if place_.Kind() == reflect.Map && place_.Elem().Kind() == reflect.Interface {
		v.Set(reflect.ValueOf(map[string]any{"k": x.Interface()}))
	} else {
		place(v, x)
	}
	r.encode(encCase{v: v.Interface(), note: "float"})
	if r.p(.2) {
		r.encode(encCase{v: []any{v.Interface(), map[string]any{"x": x.Interface()}, struct {
			F any `php:"f,string"`
		}{x.Interface()}}, note: "float in any"})
	}
}

// ---- C11

// adds entries the destination does not know; returns how many
func (r *run) addUnknown(t reflect.Type, w *W) (n int) {
	if w.K != 'a' && w.K != 'O' {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		return r.addUnknown(t.Elem(), w)
	case reflect.Struct:
		keys := map[string]bool{}
		for j := 0; j < t.NumField(); j++ {
			f := t.Field(j)
			if f.IsExported() && f.Tag.Get("php") != "-" {
				keys[fieldKey(f)] = true
			}
		}
		for _, e := range w.E {
			for j := 0; j < t.NumField(); j++ {
				if f := t.Field(j); f.IsExported() && f.Tag.Get("php") != "-" && fieldKey(f) == e.Key.T && e.Key.K == 's' {
					n += r.addUnknown(f.Type, e.Val)
				}
			}
		}
		for range r.Intn(3) {
			key := r.str()
			for _, k := range slices.Sorted(maps.Keys(keys)) {
				if r.p(.5) {
					key = r.near(k)
					break
				}
			}
			if keys[key] {
				continue
			}
			at := r.Intn(len(w.E) + 1)
			w.E = append(w.E[:at:at], append([]WE{{wS(key), r.skippable()}}, w.E[at:]...)...)
			n++
		}
	case reflect.Array:
		for _, e := range w.E {
			n += r.addUnknown(t.Elem(), e.Val)
		}
		for range r.Intn(2) {
			at := r.Intn(len(w.E) + 1)
			w.E = append(w.E[:at:at], append([]WE{{wI(strconv.Itoa(t.Len() + r.Intn(1000))), r.skippable()}}, w.E[at:]...)...)
			n++
		}
	case reflect.Slice, reflect.Map:
		for _, e := range w.E {
			n += r.addUnknown(t.Elem(), e.Val)
		}
	}
	return n
}

func (r *run) skippable() *W {
	w := r.randWire(3)
	if r.p(.3) {
		w = wS(r.str())
	}
	if r.p(.1) {
		w = wD(r.floatWire(64))
	}
	return w
}

func (w *W) clone() *W {
	c := *w
	c.E = make([]WE, len(w.E))
	for i, e := range w.E {
		c.E[i] = WE{e.Key.clone(), e.Val.clone()}
	}
	return &c
}

// the text of some skipped value inside w gets broken
func unknownEntries(r *run, i int) {
	r.o.pMut, r.o.pWrong, r.o.pCount, r.o.pUnknown, r.o.pRange, r.o.pStruct, r.o.pHidden = 0, 0, 0, 0, .05, .6, .15
	var t reflect.Type
	switch i % 3 {
	case 0:
		t = r.structType(3, true)
	case 1:
		t = reflect.ArrayOf(r.Intn(4), r.typ(2, true))
	default:
		t = pick(r.gen, []reflect.Type{reflect.SliceOf(r.structType(1, true)), reflect.MapOf(reflect.TypeFor[string](), r.structType(1, true)), reflect.PointerTo(r.structType(2, true)),
			reflect.StructOf([]reflect.StructField{{Name: "A", Type: r.structType(1, true), Tag: `php:"a"`}, {Name: "B", Type: reflect.TypeFor[string]()}})})
	}
	w := r.wire(t, 3)
	base := w.clone()
	if r.addUnknown(t, w) == 0 {
		return
	}
	var old reflect.Value
	if r.p(.3) {
		old = r.value(t, 3, decMode)
	}
	ctl, _, _ := r.decode(decCase{rt: t, in: []byte(base.String()), old: clone(old), note: "without", quiet: true})
	r.decode(decCase{rt: t, in: []byte(w.String()), old: clone(old), ctl: ctl, note: "with unknown"})
	if r.p(.4) { // a malformed skipped value
		k := pick(r.gen, []string{`s:2:"a";`, `s:0:"a";`, `s:1:"a"`, `s:-1:"a";`, `a:1:{}`, `a:0:{i:0;i:1;}`, `a:1:{i:0;}`, `a:1:{i:0;i:0;`, `i:;`, `i:1`, `i:a;`, `i:-;`, `b:2;`, `b:;`, `b:1`, `N`, `n;`, `d:;`, `d:x;`, `d:1`,
			`O:1:"AB":0:{}`, `O:1:"A":1:{}`, `O:1:A:0:{}`, `O:1:"A"0:{}`, `a:1:{N;i:0;}`, `a:1:{b:1;i:0;}`, `a:1:{a:0:{}i:0;}`, `x:1;`, ``, `}`, `;`, `i:1;i:2;`, `s:1:a;`, `a:-1:{}`, `a:x:{}`, `a:1:i:0;i:0;}`,
			`a:2:{i:0;i:0;}`, `a:1:{i:0;i:0;i:1;i:1;}`, `a:1:{d:1;i:1;}`, `s:99999999999:"a";`, `s:18446744073709551617:"a";`, `i:1:;`, `i::1;`, `d::1;`, `b::1;`, `b:10;`, `N:;`, `a:1:{i:0;s:2:"a";}`, `a:1:{s:2:"a";i:0;}`, `S:1:"a";`, `i: 1;`, `i:+1;`})
		key := `s:2:"??";`
		if t.Kind() == reflect.Array {
			key = "i:7;"
		}
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct && t.Kind() != reflect.Array {
			return
		}
		s := "a:2:{" + key + k + key + "i:1;}"
		if r.p(.3) {
			s = "a:1:{" + key + "a:1:{i:0;" + k + "}}"
		}
		if r.p(.2) {
			s = "a:1:{" + key + r.mutate(r.skippable().String()) + "}"
		} else if r.p(.25) {
			w := r.skippable()
			for range 3 {
				if w.K != 'a' && w.K != 'O' && w.K != 's' {
					w = r.skippable()
				}
			}
			s = "a:2:{" + key + r.wrapped(w.String()) + key + "i:1;}"
		}
		r.decode(decCase{rt: t, in: []byte(s), note: "malformed unknown"})
	}
}

// ---- C12

func destinations(r *run, i int) {
	r.o.pOld, r.o.pMut, r.o.pWrong, r.o.pNull, r.o.pIface = 1, 0, 0, .25, .03
	r.o.pNilVal, r.o.pRange = .1, 0
	switch i % 6 {
	case 1:
		r.o.pPtr = .4
	case 2:
		r.o.pCont = .6
	case 3:
		r.o.pStruct = .6
	case 4:
		r.o.pAny = .4
	case 5:
		r.o.pUnm = .15
	}
	t := r.typ(3, true)
	old := r.value(t, 4, decMode)
	// several calls into the same variable
	for range 3 {
		_, dst, ok := r.decode(decCase{rt: t, in: []byte(r.wire(t, 3).String()), old: old, note: "into old"})
		if !ok {
			old = r.value(t, 4, decMode)
			continue
		}
		old = dst
	}
}

// a struct of many fields
func (g *gen) wideStruct() reflect.Type {
	var fs []reflect.StructField
	n := pick(g, []int{31, 33, 63, 64, 65, 66, 100, 127, 129, 130, 200, 257, 300})
	for i := range n {
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: pick(g, []reflect.Type{reflect.TypeFor[int8](), reflect.TypeFor[bool](), reflect.TypeFor[string](), reflect.TypeFor[*int](), reflect.TypeFor[any]()})}
		f.Tag = quoteTag("f" + strconv.Itoa(i) + pick(g, []string{",omitempty", ",omitempty", "", ",string"}))
		if f.Type.Kind() == reflect.Interface || f.Type.Kind() == reflect.Pointer {
			f.Tag = quoteTag("f" + strconv.Itoa(i) + pick(g, []string{",omitempty", ""}))
		}
		if g.p(.03) {
			f.Tag = `php:"-"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// ---- C13

func tags(r *run, i int) {
	r.o.pTag, r.o.pHidden, r.o.pOmit, r.o.pUnknown, r.o.pMut, r.o.pNilVal = .9, .2, .4, .5, 0, .3
	r.o.maxDepth = 2
	if i%10 == 0 {
		v := r.value(pick(r.gen, []reflect.Type{reflect.TypeFor[Hidden](), reflect.TypeFor[EmbIgnored](), reflect.TypeFor[EmbNonStruct]()}), 3, encMode)
		r.encode(encCase{v: v.Interface()})
		r.decode(decCase{rt: v.Type(), in: []byte(r.wire(v.Type(), 2).String()), old: r.value(v.Type(), 3, decMode)})
		return
	}
	t := r.structType(2, i%2 == 0)
	if i%200 == 51 || i%400 == 84 {
		t = r.wideStruct()
	}
	if i%2 == 1 { // many patterns of zero values
		for range 4 {
			v := reflect.New(t).Elem()
			for j := 0; j < t.NumField(); j++ {
				if r.p(.5) {
					r.fill(v.Field(j), 3, encMode)
				}
			}
			r.encode(encCase{v: v.Interface()})
			if r.p(.3) {
				r.encode(encCase{v: []any{v.Interface()}})
			}
		}
		return
	}
	for range 3 {
		k := decCase{rt: t, in: []byte(r.wire(t, 2).String())}
		if r.p(.5) {
			k.old = r.value(t, 3, decMode)
		}
		r.decode(k)
	}
}

// ---- C14

func stringOption(r *run, i int) {
	t := pick(r.gen, []reflect.Type{r.scalar(), r.scalar(), reflect.PointerTo(r.scalar())})
	opts := pick(r.gen, []string{`php:"a,string"`, `php:",string"`, `php:"a,string,omitempty"`, `php:"a,omitempty,string"`})
	fs := []reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag(opts)}}
	if r.p(.4) {
		fs = append(fs, reflect.StructField{Name: "B", Type: r.scalar(), Tag: `php:"b,string"`})
	}
	if r.p(.4) {
		fs = append(fs, reflect.StructField{Name: "C", Type: r.typ(1, true), Tag: `php:"c"`})
	}
	if i%4 >= 2 && r.p(.15) { // says nothing about what is not a scalar
		c := pick(r.gen, []reflect.Type{reflect.ArrayOf(r.Intn(3), t), reflect.SliceOf(t), reflect.MapOf(reflect.TypeFor[string](), t), reflect.StructOf(fs),
			reflect.TypeFor[UStruct](), reflect.TypeFor[any](), reflect.TypeFor[[]byte]()})
		fs = append(fs, reflect.StructField{Name: "D", Type: c, Tag: `php:"d,string"`})
	}
	st := reflect.StructOf(fs)
	r.o.longFloat, r.o.extreme, r.o.pRange, r.o.pMut, r.o.pUnknown = .3, .6, .3, .05, .05
	switch i % 4 {
	case 0:
		for range 4 {
			r.encode(encCase{v: r.value(st, 3, encMode).Interface()})
		}
	case 1: // held by an interface
		for range 3 {
			x := r.value(pick(r.gen, []reflect.Type{r.scalar(), r.scalar(), reflect.PointerTo(r.scalar())}), 2, encMode).Interface()
			r.encode(encCase{v: struct {
				A any `php:"a,string"`
				B any `php:"b,string,omitempty"`
			}{x, pick(r.gen, []any{nil, x, 5, "s", true, -1.5})}})
		}
		n := struct {
			A Named `php:"a,string"`
		}{pick(r.gen, []Named{nil, NamedInt(5), NamedInt(-5)})}
		r.encode(encCase{v: n})
	default:
		for range 4 {
			k := decCase{rt: st, in: []byte(r.wire(st, 2).String())}
			if r.p(.15) {
				k.in = []byte(r.mutate(string(k.in)))
			}
			if r.p(.3) {
				k.old = r.value(st, 3, decMode)
			}
			r.decode(k)
		}
		if i%8 == 2 { // the type letter matters
			bare := wA(WE{wS(fieldKey(fs[0])), r.randWire(1)})
			r.decode(decCase{rt: st, in: []byte(bare.String())})
		}
		if i%8 == 3 && t.Kind() != reflect.Ptr && t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64 {
			for range 10 {
				s := pick(r.gen, edges)
				r.decode(decCase{rt: st, in: []byte(wA(WE{wS(fieldKey(fs[0])), wS(s)}).String())})
			}
		}
	}
}

// ---- C15

func marshalers(r *run, i int) {
	r.o.pMarsh = .35
	r.o.pAny = .2
	r.o.pNilVal = .2
	r.o.pIface = 0
	if i%4 == 0 {
		r.o.pMarshErr = .15
	}
	switch i % 5 {
	case 0:
		v := r.value(pick(r.gen, marshalerTypes), 3, encMode)
		r.encode(encCase{v: v.Interface()})
		w := r.wrap(v)
		if v.Kind() == reflect.Interface {
			return
		}
		r.encode(encCase{v: held(w)})
		r.encode(encCase{v: held(r.wrap(w))})
	case 1: // a field
		mt := pick(r.gen, marshalerTypes)
		st := reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: mt, Tag: pick(r.gen, []reflect.StructTag{"", `php:"a"`, `php:"a,omitempty"`})},
			{Name: "B", Type: reflect.SliceOf(mt)},
			{Name: "C", Type: reflect.MapOf(reflect.TypeFor[string](), mt)},
			{Name: "D", Type: reflect.ArrayOf(r.Intn(3), mt)}})
		r.encode(encCase{v: r.value(st, 4, encMode).Interface()})
		r.encode(encCase{v: r.value(reflect.PointerTo(st), 4, encMode).Interface()})
	case 2:
		mt := pick(r.gen, marshalerTypes)
		r.encode(encCase{v: r.value(reflect.SliceOf(mt), 4, encMode).Interface()})
		r.encode(encCase{v: r.value(reflect.MapOf(reflect.TypeFor[int](), mt), 4, encMode).Interface()})
		if mt.Kind() != reflect.Ptr {
			r.encode(encCase{v: r.value(reflect.PointerTo(mt), 4, encMode).Interface()})
		}
	default:
		r.encRandom()
	}
}

// ---- C16

func unmarshalers(r *run, i int) {
	r.o.pUnm, r.o.pIface, r.o.pNull, r.o.pMut, r.o.pUnknown = .35, .08, .12, .15, .2
	r.o.pRange = .1
	if i%30 == 6 {
		r.o.pMut, r.o.width = 0, 6
		ut := reflect.TypeFor[UByte]()
		st := reflect.SliceOf(ut)
		for range 2 {
			t := pick(r.gen, []reflect.Type{ut, st, st, reflect.PointerTo(st), reflect.ArrayOf(3, ut), reflect.MapOf(reflect.TypeFor[string](), ut), reflect.MapOf(reflect.TypeFor[int](), st),
				reflect.StructOf([]reflect.StructField{{Name: "A", Type: st, Tag: `php:"a"`}, {Name: "B", Type: reflect.PointerTo(ut), Tag: `php:"b"`}})})
			k := decCase{rt: t, in: []byte(r.wire(t, 3).String())}
			if r.p(.5) {
				k.old = r.value(t, 3, decMode)
			}
			r.decode(k)
		}
		return
	}
	switch i % 3 {
	case 0:
		ut := pick(r.gen, unmarshalerTypes)
		t := pick(r.gen, []reflect.Type{ut, reflect.PointerTo(ut), reflect.SliceOf(ut), reflect.ArrayOf(2, ut), reflect.MapOf(reflect.TypeFor[string](), ut),
			reflect.MapOf(pick(r.gen, unmarshalerKeys), pick(r.gen, []reflect.Type{ut, reflect.TypeFor[int](), reflect.TypeFor[any]()})),
			reflect.SliceOf(reflect.PointerTo(ut)), reflect.StructOf([]reflect.StructField{{Name: "A", Type: ut, Tag: `php:"a"`}, {Name: "B", Type: reflect.PointerTo(ut), Tag: `php:"b"`}, {Name: "C", Type: reflect.TypeFor[string]()}}),
			reflect.TypeFor[struct {
				A Named `php:"a"`
				B int   `php:"b"`
			}](), reflect.TypeFor[Named]()})
		for range 3 {
			k := decCase{rt: t, in: []byte(r.wire(t, 3).String())}
			if r.p(.5) {
				k.old = r.value(t, 3, decMode)
			}
			r.decode(k)
		}
		if r.p(.2) { // what an interface holds
			t := pick(r.gen, []reflect.Type{reflect.TypeFor[Named](), reflect.SliceOf(namedType), reflect.ArrayOf(2, namedType), reflect.MapOf(reflect.TypeFor[int](), namedType), reflect.TypeFor[struct {
				A Named `php:"a"`
				B Named `php:"b,string"`
			}](), reflect.PointerTo(namedType)})
			r.o.pNilVal = .1
			r.decode(decCase{rt: t, in: []byte(r.wire(t, 2).String()), old: r.value(t, 3, decMode)})
		}
	case 1:
		r.decRandom()
		r.decRandom()
	default: // a corrupted value at the Unmarshaler's position
		ut := pick(r.gen, unmarshalerTypes)
		for range 4 {
			v := r.randWire(3).String()
			if r.p(.6) {
				v = r.mutate(v)
			}
			if r.p(.5) {
				r.decode(decCase{rt: ut, in: []byte(v), note: "corrupt"})
			} else {
				st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: ut, Tag: `php:"a"`}, {Name: "B", Type: reflect.TypeFor[string](), Tag: `php:"b"`}})
				r.decode(decCase{rt: st, in: []byte(`a:2:{s:1:"a";` + v + `s:1:"b";s:1:"z";}`), note: "corrupt"})
			}
		}
	}
}

// ---- C17

func intoAny(r *run, i int) {
	r.o.pMut, r.o.pCount, r.o.pRange = .03, .01, .08
	t := pick(r.gen, []reflect.Type{reflect.TypeFor[any](), reflect.TypeFor[any](), reflect.TypeFor[any](), reflect.TypeFor[NAny](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[any]any](), reflect.TypeFor[map[int]any](),
		reflect.TypeFor[[2]any](), reflect.TypeFor[struct {
			A any `php:"a"`
			B any `php:"name"`
		}](), reflect.TypeFor[*any](), reflect.TypeFor[struct {
			A *any `php:"a"`
		}](), reflect.TypeFor[map[any]string]()})
	r.o.width = 4
	s := r.wire(t, 4).String()
	if r.p(r.o.pMut) {
		s = r.mutate(s)
	}
	k := decCase{rt: t, in: []byte(s)}
	if r.p(.6) {
		k.old = r.value(t, 4, decMode)
	}
	r.decode(k)
}

// ---- C21: supported, unsupported and recursive parts

func support(r *run, i int) {
	r.o.pRec = .3
	r.o.pMut, r.o.pOld = 0, .2
	if i%2 == 0 {
		r.o.pBad = .12
		r.o.pHidden = .25
	}
	switch i % 4 {
	case 0, 1:
		t := r.typ(3, false)
		v := r.value(t, 4, encMode)
		r.encode(encCase{v: v.Interface()})
		r.encode(encCase{v: reflect.Zero(t).Interface()})
		r.encode(encCase{v: v.Interface(), note: "again"})
		if i%4 == 0 {
			r.encode(encCase{v: map[string]any{"k": v.Interface()}})
			r.encode(encCase{v: wrapStruct{reflect.Zero(t).Interface()}})
		}
	case 2:
		t := r.typ(3, true)
		s := r.wire(t, 3).String()
		r.decode(decCase{rt: t, in: []byte(s)})
		r.decode(decCase{rt: t, in: []byte(s), note: "again"})
		r.decode(decCase{rt: t, in: []byte("N;"), note: "null"})
	default:
		t := pick(r.gen, recTypes)
		r.o.maxDepth = 5
		v := r.value(t, 6, encMode)
		_, out, ok := r.encode(encCase{v: v.Interface()})
		if ok {
			r.decode(decCase{rt: t, in: out, canon: true})
		}
		r.decode(decCase{rt: t, in: []byte(r.wire(t, 5).String())})
	}
}

// ---- C22

// turns every array that is decoded into a struct, map or any into an object,
// or back; inside any that changes the result
func (w *W) objects(r *run, t reflect.Type, to byte) (n int) {
	if w.K != 'a' && w.K != 'O' {
		return
	}
	if t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(unmarshalerType) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		return w.objects(r, t.Elem(), to)
	case reflect.Struct:
		for _, e := range w.E {
			for j := 0; j < t.NumField(); j++ {
				if f := t.Field(j); f.IsExported() && fieldKey(f) == e.Key.T && e.Key.K == 's' {
					n += e.Val.objects(r, f.Type, to)
				}
			}
		}
	case reflect.Map:
		for _, e := range w.E {
			n += e.Val.objects(r, t.Elem(), to)
		}
	case reflect.Slice, reflect.Array:
		for _, e := range w.E {
			n += e.Val.objects(r, t.Elem(), to)
		}
		return n
	default:
		return
	}
	w.K = to
	if to == 'O' {
		w.Cls = pick(r.gen, classNames)
		if r.p(.2) {
			w.Cls = r.str()
		}
		if r.p(.05) {
			w.Cls = r.bigString(r.bigSize())
		}
	}
	return n + 1
}

func objects(r *run, i int) {
	r.o.pMut, r.o.pWrong, r.o.pCount, r.o.pStruct, r.o.pObj, r.o.pUnm = 0, 0, 0, .5, 0, .05
	switch i % 4 {
	case 0, 1:
		t := pick(r.gen, []reflect.Type{r.structType(3, true), reflect.MapOf(r.keyType(true), r.typ(2, true)), reflect.SliceOf(r.structType(2, true)), reflect.PointerTo(r.structType(2, true)),
			reflect.MapOf(reflect.TypeFor[string](), r.structType(1, true))})
		w := r.wire(t, 3)
		w.objects(r, t, 'a')
		var old reflect.Value
		if r.p(.3) {
			old = r.value(t, 3, decMode)
		}
		ctl, _, _ := r.decode(decCase{rt: t, in: []byte(w.String()), old: clone(old), note: "array", quiet: true})
		if w.objects(r, t, 'O') == 0 {
			return
		}
		r.decode(decCase{rt: t, in: []byte(w.String()), old: clone(old), ctl: ctl, note: "object"})
		r.decode(decCase{rt: t, in: []byte(w.String()), old: clone(old), ctl: ctl, note: "object again"})
	case 2: // the header, also skipped, in an any and handed to an Unmarshaler
		cls := pick(r.gen, classNames)
		l := strconv.Itoa(len(cls))
		if r.p(.7) {
			l = pick(r.gen, []string{strconv.Itoa(len(cls) + 1), strconv.Itoa(max(0, len(cls)-1)), "0", "-1", "", "99999999999999999999", "9223372036854775807", strconv.Itoa(len(cls)) + "x", "+1", strconv.Itoa(len(cls) + 4)})
		}
		q1, q2, c1, c2, c3 := `"`, `"`, ":", ":", ":"
		if r.p(.4) {
			for _, x := range []*string{&q1, &q2, &c1, &c2, &c3} {
				if r.p(.2) {
					*x = pick(r.gen, []string{"", "'", ";", "x", "::", `""`, " "})
				}
			}
		}
		o := "O:" + l + c1 + q1 + cls + q2 + c2 + pick(r.gen, []string{"0", "0", "0", "1", ""}) + c3 + pick(r.gen, []string{"{}", "{}", "{}", "{", "}", "{i:0;i:0;}"})
		for _, t := range []reflect.Type{reflect.TypeFor[struct{ A int }](), reflect.TypeFor[map[string]int](), reflect.TypeFor[any](), reflect.TypeFor[UStruct](), reflect.TypeFor[[]int](), reflect.TypeFor[[2]int](), reflect.TypeFor[map[any]any]()} {
			r.decode(decCase{rt: t, in: []byte(o), note: "header"})
		}
		r.decode(decCase{rt: reflect.TypeFor[struct {
			Z int `php:"z"`
		}](), in: []byte(`a:2:{s:1:"q";` + o + `s:1:"z";i:5;}`), note: "header skipped"})
		r.decode(decCase{rt: reflect.TypeFor[[]any](), in: []byte(`a:2:{i:0;` + o + `i:1;i:5;}`), note: "header in any"})
	default:
		r.o.pMut, r.o.pObj = .15, .9
		r.decRandom()
	}
}

// ---- C23

func sequences(r *run, i int) {
	r.o.pMut, r.o.pWrong, r.o.pCount, r.o.pNull = 0, 0, 0, .05
	et := r.typ(1, true)
	if i%3 == 0 {
		et = pick(r.gen, []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[any](), reflect.TypeFor[*int](), reflect.TypeFor[[]int](), reflect.TypeFor[map[string]int](), reflect.TypeFor[struct{ A, B int }](), reflect.TypeFor[[2]int](), reflect.TypeFor[struct{}](), reflect.TypeFor[uint8]()})
	}
	t := reflect.SliceOf(et)
	if i%2 == 0 {
		t = reflect.ArrayOf(r.Intn(6), et)
	}
	n := r.Intn(7)
	span := 1 + r.Intn(8)
	if i%11 == 0 {
		n, span = 20+r.Intn(20), 40
	}
	if i%17 == 0 {
		span = 2900
	}
	wide := i%2 == 0 && i%5 != 4 && !hasSlice(et, map[reflect.Type]bool{}) // no slice to fill up to a key
	if i%400 == 77 {                                                       // more than 2^16 elements
		et := pick(r.gen, []reflect.Type{reflect.TypeFor[int8](), reflect.TypeFor[bool](), reflect.TypeFor[struct{}]()})
		x := map[reflect.Kind]string{reflect.Int8: "i:5;", reflect.Bool: "b:1;", reflect.Struct: "a:0:{}"}[et.Kind()]
		s := "a:3:{i:3;" + x + "i:" + strconv.Itoa(pick(r.gen, []int{65534, 65535, 65536, 65537, 66000})) + ";" + x + "i:7;" + x + "}"
		r.decode(decCase{rt: reflect.SliceOf(et), in: []byte(s), big: true})
		return
	}
	w := wA()
	for range n {
		k := strconv.Itoa(r.Intn(span))
		if wide && r.p(.2) {
			k = strconv.FormatUint(min(uint64(r.Intn(span))+pick(r.gen, []uint64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 48, 1 << 62, math.MaxInt64 - 10}), math.MaxInt64), 10)
		}
		if r.p(.01) {
			k = pick(r.gen, []string{"-1", "-5", "-9223372036854775808", "-0", "00", "01", "9223372036854775808", "18446744073709551615"})
		}
		key := wI(k)
		if r.p(.01) {
			key = pick(r.gen, []*W{wS("0"), wD("0"), wB(false), wN(), wS("a")})
		}
		w.E = append(w.E, WE{key, r.wire(et, 2)})
	}
	k := decCase{rt: t, in: []byte(w.String())}
	if r.p(.4) {
		k.old = r.value(t, 3, decMode)
	}
	switch i % 5 {
	case 3: // nested
		k = decCase{rt: reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.TypeFor[int]()}}), in: []byte(`a:2:{s:1:"A";` + w.String() + `s:1:"B";i:9;}`)}
	case 4:
		k = decCase{rt: reflect.SliceOf(t), in: []byte(`a:2:{i:1;` + w.String() + `i:0;` + w.String() + `}`)}
	}
	r.decode(k)
	if i%7 == 0 { // again into the result
		_, dst, ok := r.decode(decCase{rt: t, in: []byte(w.String())})
		if ok {
			r.Shuffle(len(w.E), func(a, b int) { w.E[a], w.E[b] = w.E[b], w.E[a] })
			r.decode(decCase{rt: t, in: []byte(w.String()), old: dst})
		}
	}
}

var edges = edgeTexts()

var _ = php.Marshal

// ---- C19

func lateLook(r *run, i int) {
	r.o.pOld, r.o.pUnknown, r.o.pUnm, r.o.pMarsh = .3, .2, .15, .1
	r.o.pMut, r.o.pWrong, r.o.pRange, r.o.pCount = 0, 0, 0, 0
	if i%3 == 0 {
		t := r.typ(3, false)
		r.encode(encCase{v: r.value(t, 4, encMode).Interface(), late: true})
		return
	}
	t := r.typ(3, true)
	k := decCase{rt: t, in: []byte(r.wire(t, 3).String()), late: true}
	if r.p(r.o.pOld) {
		k.old = r.value(t, 4, decMode)
	}
	r.decode(k)
}
