package main

// Values that Writer.tla enumerates: for each group of types the scalars the
// values are made of, and how to make the Go value of one.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	php "github.com/trim21/go-phpserialize"
)

type wgroup struct {
	types []reflect.Type
	dyn   []reflect.Type // what interfaces may hold
	rt    bool           // values come back when decoded
	quick int            // nesting
	deep  int
}

var poolRegistry = []marsh{{raw: []byte("i:0;")}, {raw: []byte(`s:1:"x";`)}, {raw: []byte("N;")}, {raw: []byte("a:1:{i:0;N;}")}, {er: true}}

func ptr[T any](v T) *T { return &v }

var leafPools = map[reflect.Type][]any{
	reflect.TypeFor[bool]():     {false, true},
	reflect.TypeFor[string]():   {"", "a", `";é`},
	reflect.TypeFor[float64]():  {0.0, 1.5, -1e21},
	reflect.TypeFor[float32]():  {float32(0), float32(-0.1)},
	reflect.TypeFor[[]byte]():   {[]byte(nil), []byte{}, []byte("a\x00")},
	reflect.TypeFor[NStr]():     {NStr(""), NStr("n")},
	reflect.TypeFor[MInt]():     {MInt(0), MInt(1), MInt(4)},
	reflect.TypeFor[MStr]():     {MStr(""), MStr("xx")},
	reflect.TypeFor[MStruct]():  {MStruct{0}, MStruct{3}, MStruct{4}},
	reflect.TypeFor[MSlice]():   {MSlice(nil), MSlice{1}},
	reflect.TypeFor[MMap]():     {MMap(nil), MMap{"i": 3}},
	reflect.TypeFor[*MInt]():    {(*MInt)(nil), ptr(MInt(1))},
	reflect.TypeFor[*MStruct](): {(*MStruct)(nil), &MStruct{3}, &MStruct{4}},
	reflect.TypeFor[*PInt]():    {(*PInt)(nil), ptr(PInt(3)), ptr(PInt(4))},
	reflect.TypeFor[*PStruct](): {(*PStruct)(nil), &PStruct{1}},
	reflect.TypeFor[*PMap]():    {(*PMap)(nil), &PMap{"i": 2}},
	reflect.TypeFor[MU]():       {MU{"i:7;"}, MU{}},
}

func leafPool(t reflect.Type) []any {
	if p, ok := leafPools[t]; ok {
		return p
	}
	var p []any
	add := func(x any) { p = append(p, reflect.ValueOf(x).Convert(t).Interface()) }
	switch t.Kind() {
	case reflect.Bool:
		add(false)
		add(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for _, x := range []int64{0, 7, -1 << (t.Bits() - 1)} {
			add(x)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(uint64(0))
		add(uint64(1)<<t.Bits() - 1)
	case reflect.Float32, reflect.Float64:
		add(0.0)
		add(-2.5)
	case reflect.String:
		add("")
		add("k")
	}
	return p
}

func wgroups() map[string]wgroup {
	type omits struct {
		A int            `php:"a,omitempty"`
		B string         `php:"b,omitempty"`
		C *int8          `php:"c,omitempty"`
		D []int          `php:"d,omitempty"`
		E map[string]int `php:"e,omitempty"`
		F any            `php:"f,omitempty"`
		G [1]bool        `php:"g,omitempty"`
		H inner          `php:"h,omitempty"`
	}
	type strs struct {
		A int      `php:"a,string"`
		B bool     `php:"b,string"`
		C *uint8   `php:"c,string,omitempty"`
		D string   `php:",string"`
		E float64  `php:"e,string"`
		F any      `php:"f,string"`
		G *float32 `php:"g,omitempty,string"`
	}
	type nums struct {
		A int8
		B uint64
		C *int
		D []int16
	}
	type hidden struct {
		A int `php:"-"`
		b int
		C int      `php:"-,"`
		D chan int `php:"-"`
		E string
		f func()
		G int `php:"A"`
	}
	type nest struct {
		A []inner           `php:"a"`
		B map[string][]bool `php:"b"`
		C *[2]*inner        `php:"c"`
		D map[int8]*inner   `php:"d"`
	}
	type marshes struct {
		A MInt          `php:"a,omitempty"`
		B *MInt         `php:"b"`
		C PInt          `php:"c"`
		D *PInt         `php:"d,omitempty"`
		E php.Marshaler `php:"e"`
		F []*MStruct    `php:"f,omitempty"`
	}
	type bytesy struct {
		A []byte
		B NBytes
		C *[]byte
		D [2]uint8
		E any
	}
	plain := []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[bool](), reflect.TypeFor[uint16](), reflect.TypeFor[float64](), reflect.TypeFor[NStr](), reflect.TypeFor[*int](), reflect.TypeFor[**string](),
		reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[[]byte](), reflect.TypeFor[[]int8](), reflect.TypeFor[map[int]string](), reflect.TypeFor[inner](), reflect.TypeFor[*inner](), reflect.TypeFor[[1]any](), reflect.TypeFor[*any](), reflect.TypeFor[map[string]inner](), reflect.TypeFor[[0]int](), reflect.TypeFor[NSlice]()}
	held := []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[*any](), reflect.TypeFor[struct {
		V any `php:"v"`
	}](), reflect.TypeFor[*inner](), reflect.TypeFor[[1]any]()}
	T := func(ts ...reflect.Type) []reflect.Type { return ts }
	return map[string]wgroup{
		"C01": {types: T(reflect.TypeFor[nest](), reflect.TypeFor[[]map[string]int](), reflect.TypeFor[map[int8][]string](), reflect.TypeFor[[2]map[NStr]bool](), reflect.TypeFor[nums](), reflect.TypeFor[*[]*[]int](), reflect.TypeFor[bytesy](), reflect.TypeFor[map[uint8]map[string]*bool](),
			reflect.TypeFor[RList](), reflect.TypeFor[RSlice](), reflect.TypeFor[RMap](), reflect.TypeFor[*RArr](), reflect.TypeFor[any]()), dyn: T(reflect.TypeFor[int](), reflect.TypeFor[*string](), reflect.TypeFor[[]byte](), reflect.TypeFor[NBytes](), reflect.TypeFor[float32]()), quick: 3, deep: 4},
		"C02": {types: T(reflect.TypeFor[omits](), reflect.TypeFor[[]omitted](), reflect.TypeFor[map[string]omitted](), reflect.TypeFor[strs](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[bytesy]()),
			dyn: T(reflect.TypeFor[omitted](), reflect.TypeFor[string](), reflect.TypeFor[map[string]any](), reflect.TypeFor[[]byte]()), quick: 2, deep: 3},
		"C03": {types: T(reflect.TypeFor[any](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[[2]any](), reflect.TypeFor[struct {
			A any `php:"a"`
			B any `php:"b,omitempty"`
		}](), reflect.TypeFor[*any](), reflect.TypeFor[map[int]any](), reflect.TypeFor[[]*any]()), dyn: append(plain, reflect.TypeFor[bool]()), quick: 2, deep: 3},
		"C03b": {types: T(reflect.TypeFor[any]()), dyn: held, quick: 4, deep: 5},
		"C08": {types: T(reflect.TypeFor[nest](), reflect.TypeFor[nums](), reflect.TypeFor[[]map[string]int](), reflect.TypeFor[map[int8][]string](), reflect.TypeFor[[2]map[NStr]bool](), reflect.TypeFor[RList](), reflect.TypeFor[RMap](), reflect.TypeFor[map[uint8]map[string]*bool](), reflect.TypeFor[[]byte](), reflect.TypeFor[NBytes](),
			reflect.TypeFor[[]*inner](), reflect.TypeFor[*[]float32](), reflect.TypeFor[omitted](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[strsafe]()), dyn: T(reflect.TypeFor[int64](), reflect.TypeFor[string](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[map[any]any]()), rt: true, quick: 2, deep: 3},
		"C13": {types: T(reflect.TypeFor[omits](), reflect.TypeFor[hidden](), reflect.TypeFor[[]hidden](), reflect.TypeFor[omitted](), reflect.TypeFor[map[string]omitted](), reflect.TypeFor[any]()), dyn: T(reflect.TypeFor[int](), reflect.TypeFor[hidden](), reflect.TypeFor[*omitted]()), quick: 2, deep: 3},
		"C14": {types: T(reflect.TypeFor[strs](), reflect.TypeFor[[]strs]()), dyn: T(reflect.TypeFor[int8](), reflect.TypeFor[*string](), reflect.TypeFor[float32](), reflect.TypeFor[NStr](), reflect.TypeFor[bool](), reflect.TypeFor[**bool](), reflect.TypeFor[uint64]()), quick: 2, deep: 3},
		"C15": {types: T(reflect.TypeFor[marshes](), reflect.TypeFor[[]MStruct](), reflect.TypeFor[map[string]MSlice](), reflect.TypeFor[[2]MStr](), reflect.TypeFor[*MStruct](), reflect.TypeFor[any](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]*PStruct](), reflect.TypeFor[[]php.Marshaler](), reflect.TypeFor[*php.Marshaler](), reflect.TypeFor[PStruct](), reflect.TypeFor[[]PInt](), reflect.TypeFor[map[string]any]()),
			dyn: T(reflect.TypeFor[MInt](), reflect.TypeFor[*MInt](), reflect.TypeFor[MStruct](), reflect.TypeFor[MMap](), reflect.TypeFor[*PStruct](), reflect.TypeFor[PInt](), reflect.TypeFor[*PMap](), reflect.TypeFor[struct{ V MStruct }](), reflect.TypeFor[[]MStr](), reflect.TypeFor[*MSlice]()), quick: 2, deep: 3},
		"C21": {types: T(reflect.TypeFor[any](), reflect.TypeFor[[]any](), reflect.TypeFor[chan int](), reflect.TypeFor[map[float64]int](), reflect.TypeFor[[]chan int](), reflect.TypeFor[struct{ C chan int }](), reflect.TypeFor[**int](), reflect.TypeFor[[]**int](), reflect.TypeFor[hidden](), reflect.TypeFor[EmbVal](), reflect.TypeFor[RMutA](), reflect.TypeFor[map[string]func()]()),
			dyn: T(reflect.TypeFor[int](), reflect.TypeFor[chan int](), reflect.TypeFor[complex64](), reflect.TypeFor[map[float64]int](), reflect.TypeFor[[]func()](), reflect.TypeFor[struct {
				A int
				C func()
			}](), reflect.TypeFor[**int](), reflect.TypeFor[***int](), reflect.TypeFor[RSlice](), reflect.TypeFor[hidden](), reflect.TypeFor[map[[1]int]int](), reflect.TypeFor[uintptr]()), quick: 2, deep: 3},
	}
}

type omitted struct {
	A int   `php:"a,omitempty"`
	B []int `php:"b,omitempty"`
	C *bool `php:"c,omitempty"`
}

type strsafe struct {
	A int8     `php:"a,string"`
	B bool     `php:"b,string,omitempty"`
	C *uint64  `php:"c,string"`
	D string   `php:"d"`
	E *float32 `php:"e,string"`
}

// the pooled values of a type; nil for types whose values are put together
func poolOf(t reflect.Type) []reflect.Value {
	var vs []reflect.Value
	for _, x := range leafPool(t) {
		v := reflect.New(t).Elem()
		v.Set(reflect.ValueOf(x))
		vs = append(vs, v)
	}
	return vs
}

func writerTable(g wgroup, t reflect.Type) (*typeTable, int) {
	tt := newTypeTable()
	ti := tt.add(t)
	for _, d := range g.dyn {
		tt.add(d)
	}
	return tt, ti
}

func writeWriterGroup(name string, w *bufio.Writer) {
	registry = poolRegistry
	g, ok := wgroups()[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: no group", name)
		os.Exit(3)
	}
	fmt.Fprintf(w, `{"rt":%v,"quick":%d,"deep":%d,"dests":[`, g.rt, g.quick, g.deep)
	for i, t := range g.types {
		tt, ti := writerTable(g, t)
		var pool, dyn []string
		for j := 0; j < len(tt.order); j++ {
			nt := tt.order[j]
			var ps, ds []string
			for k, v := range poolOf(nt) {
				s := string(tt.appendValue(nil, v, encMode))
				ps = append(ps, s[:len(s)-1]+`,"pv":`+strconv.Itoa(k)+"}")
			}
			pool = append(pool, "["+strings.Join(ps, ",")+"]")
			if nt.Kind() == reflect.Interface {
				for _, d := range g.dyn {
					if d.Implements(nt) {
						ds = append(ds, strconv.Itoa(tt.add(d)))
					}
				}
			}
			dyn = append(dyn, "["+strings.Join(ds, ",")+"]")
		}
		if i > 0 {
			w.WriteString(",")
		}
		w.WriteString(`{"types":[`)
		for j, n := range tt.nodes {
			if j > 0 {
				w.WriteString(",")
			}
			w.Write(n)
		}
		fmt.Fprintf(w, `],"t":%d,"pool":[%s],"dyn":[%s]}`, ti, strings.Join(pool, ","), strings.Join(dyn, ","))
	}
	w.WriteString("]}\n")
}

// ---- replaying: lines `V <type> <value as JSON>`, ten to a case

type node struct {
	C  string
	Pv *int
	L  []node
	M  []struct{ K, V node }
	V  *node
	Y  int
	T  []node
}

func (tt *typeTable) build(dst reflect.Value, n node) {
	t := dst.Type()
	if n.Pv != nil {
		dst.Set(poolOf(t)[*n.Pv])
		return
	}
	switch n.C {
	case "n", "x":
	case "p":
		p := reflect.New(t.Elem())
		tt.build(p.Elem(), *n.V)
		dst.Set(p.Convert(t))
	case "a":
		x := reflect.New(tt.order[n.Y-1]).Elem()
		tt.build(x, *n.V)
		dst.Set(x)
	case "l":
		if t.Kind() == reflect.Slice {
			dst.Set(reflect.MakeSlice(t, len(n.L), len(n.L)))
		}
		for i, e := range n.L {
			tt.build(dst.Index(i), e)
		}
	case "m":
		dst.Set(reflect.MakeMap(t))
		for _, e := range n.M {
			k, v := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			tt.build(k, e.K)
			tt.build(v, e.V)
			dst.SetMapIndex(k, v)
		}
	case "t":
		for i, e := range n.T {
			if e.C != "x" {
				tt.build(dst.Field(i), e)
			}
		}
	default:
		panic("value " + n.C)
	}
}

func writerValues(name string) func(r *run, i int) {
	g := sync.OnceValue(func() wgroup { return wgroups()[name] })
	return func(r *run, i int) {
		registry = poolRegistry
		lines := readerLines()
		for k := i * 10; k < i*10+10 && k < len(lines); k++ {
			f := strings.SplitN(lines[k], " ", 3)
			d, err := strconv.Atoi(f[1])
			if err != nil {
				panic(err)
			}
			var n node
			if err := json.Unmarshal([]byte(f[2]), &n); err != nil {
				panic(err)
			}
			t := g().types[d-1]
			tt, _ := writerTable(g(), t)
			v := reflect.New(t).Elem()
			tt.build(v, n)
			_, out, ok := r.encode(encCase{v: v.Interface(), note: "write"})
			if g().rt && ok {
				r.decode(decCase{rt: t, in: out, orig: v, canon: true, note: "write, read"})
			}
		}
	}
}
