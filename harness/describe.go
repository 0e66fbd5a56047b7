package main

// Projection of Go types and values to the vocabulary of the specification
// (spec/Types.tla, spec/Values.tla).

import (
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

type typeTable struct {
	idx    map[reflect.Type]int
	ids    map[unsafe.Pointer]int // pointers of the old value
	old    bool                   // describing the old value
	bounds bool                   // tell which numbers are nearest to floats
	nodes  [][]byte
	order  []reflect.Type
}

// the first entries are fixed, the specification refers to them by number
var fixedTypes = []reflect.Type{
	reflect.TypeFor[bool](), reflect.TypeFor[int64](), reflect.TypeFor[float64](), reflect.TypeFor[string](),
	reflect.TypeFor[any](), reflect.TypeFor[map[any]any](), reflect.TypeFor[map[string]any](),
}

func newTypeTable() *typeTable {
	t := &typeTable{idx: map[reflect.Type]int{}, ids: map[unsafe.Pointer]int{}}
	for _, ft := range fixedTypes {
		t.add(ft)
	}
	return t
}

func appendBytes(b []byte, s string) []byte {
	b = append(b, '[')
	for i := 0; i < len(s); i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(s[i]), 10)
	}
	return append(b, ']')
}

func appendBool(b []byte, v bool) []byte { return strconv.AppendBool(b, v) }

func (t *typeTable) add(rt reflect.Type) int {
	if i, ok := t.idx[rt]; ok {
		return i
	}
	i := len(t.nodes) + 1
	t.idx[rt] = i
	t.nodes = append(t.nodes, nil)
	t.order = append(t.order, rt)

	k, w, e, key, n := "bad", 0, 0, 0, 0
	var fields []byte
	switch rt.Kind() {
	case reflect.Bool:
		k = "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k, w = "int", rt.Bits()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		k, w = "uint", rt.Bits()
	case reflect.Uintptr:
		k, w = "uintptr", 64
	case reflect.Float32, reflect.Float64:
		k, w = "float", rt.Bits()
	case reflect.String:
		k = "string"
	case reflect.Slice:
		k, e = "slice", t.add(rt.Elem())
	case reflect.Array:
		k, e, n = "array", t.add(rt.Elem()), rt.Len()
	case reflect.Map:
		k, e, key = "map", t.add(rt.Elem()), t.add(rt.Key())
	case reflect.Ptr:
		k, e = "ptr", t.add(rt.Elem())
	case reflect.Interface:
		k = "any"
		if rt.NumMethod() > 0 {
			k = "iface"
		}
	case reflect.Struct:
		k = "struct"
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			ft := 0
			if f.IsExported() && f.Tag.Get("php") != "-" {
				ft = t.add(f.Type)
			}
			tag, has := f.Tag.Lookup("php")
			if i > 0 {
				fields = append(fields, ',')
			}
			fields = append(fields, `{"n":`...)
			fields = appendBytes(fields, f.Name)
			fields = append(fields, `,"tag":`...)
			fields = appendBytes(fields, tag)
			fields = append(fields, `,"ht":`...)
			fields = appendBool(fields, has)
			fields = append(fields, `,"x":`...)
			fields = appendBool(fields, f.IsExported())
			fields = append(fields, `,"emb":`...)
			ek := f.Type.Kind() == reflect.Struct || f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct
			emb := 0
			if f.Anonymous && ek {
				emb = 1
				if f.Type.Kind() == reflect.Ptr {
					emb = 2
				}
			}
			fields = strconv.AppendInt(fields, int64(emb), 10)
			fields = append(fields, `,"t":`...)
			fields = strconv.AppendInt(fields, int64(ft), 10)
			fields = append(fields, '}')
		}
	}
	b := []byte(`{"k":"` + k + `","w":` + strconv.Itoa(w) + `,"e":` + strconv.Itoa(e) + `,"key":` + strconv.Itoa(key) +
		`,"n":` + strconv.Itoa(n))
	b = append(b, `,"m":`...)
	b = appendBool(b, rt.Implements(marshalerType))
	b = append(b, `,"u":`...)
	b = appendBool(b, reflect.PointerTo(rt).Implements(unmarshalerType))
	b = append(b, `,"uv":`...)
	b = appendBool(b, rt.Implements(unmarshalerType))
	b = append(b, `,"uf":`...)
	b = appendBool(b, rt == reflect.TypeFor[UFail]())
	b = append(b, `,"bx":`...)
	b = appendBool(b, rt == reflect.TypeFor[[]byte]())
	b = append(b, `,"b8":`...)
	b = appendBool(b, byteSlice(rt))
	b = append(b, `,"f":[`...)
	b = append(b, fields...)
	b = append(b, `],"nm":`...)
	b = strconv.AppendQuoteToASCII(b, strings.ToValidUTF8(typeName(rt), "?"))
	b = append(b, '}')
	t.nodes[i-1] = b
	return i
}

func typeName(rt reflect.Type) string {
	s := rt.String()
	if len(s) > 200 {
		s = s[:200]
	}
	// keep it free of anything a JSON parser may treat specially
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' || r == '`' {
			return '_'
		}
		return r
	}, s)
}

func appendFloat(b []byte, f float64, bits int) []byte {
	sp := ""
	switch {
	case math.IsNaN(f):
		sp = "nan"
	case math.IsInf(f, 0):
		sp = "inf"
	}
	b = append(b, `{"c":"f","sp":"`...)
	b = append(b, sp...)
	b = append(b, `","neg":`...)
	b = appendBool(b, math.Signbit(f) && sp != "nan")
	digits, exp := "0", 0
	if sp == "" {
		s := strconv.FormatFloat(math.Abs(f), 'e', -1, bits)
		m, e, _ := strings.Cut(s, "e")
		exp, _ = strconv.Atoi(e)
		digits = strings.Replace(m, ".", "", 1)
	}
	b = append(b, `,"d":`...)
	b = appendDigits(b, digits)
	b = append(b, `,"e":`...)
	b = strconv.AppendInt(b, int64(exp), 10)
	return append(b, '}')
}

// the numbers between f and its neighbours
func appendBounds(b []byte, f float64, bits int) []byte {
	lo, hi, even := 0.0, 0.0, false
	if bits == 32 {
		lo, hi = float64(math.Nextafter32(float32(f), 0)), float64(math.Nextafter32(float32(f), float32(math.Inf(1))))
		even = math.Float32bits(float32(f))&1 == 0
		if f == math.MaxFloat32 {
			hi = 2 * (f/2 + (f-lo)/2)
		}
	} else {
		lo, hi = math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))
		even = math.Float64bits(f)&1 == 0
	}
	add := func(name string, x, y float64) {
		m := new(big.Float).SetPrec(3000).SetFloat64(x)
		if math.IsInf(y, 1) {
			// as far beyond the greatest as the one below it
			d := new(big.Float).SetPrec(3000).SetFloat64(lo)
			d.Sub(m, d)
			m.Add(m, d.Quo(d, big.NewFloat(2)))
		} else {
			m.Add(m, new(big.Float).SetFloat64(y))
			m.Quo(m, big.NewFloat(2))
		}
		mant, exp, _ := strings.Cut(m.Text('e', 1100), "e")
		digits := strings.TrimRight(strings.Replace(mant, ".", "", 1), "0")
		if digits == "" {
			digits, exp = "0", "0"
		}
		e, _ := strconv.Atoi(exp)
		b = append(b, `,"`+name+`":`...)
		b = appendDigits(b, digits)
		b = append(b, `,"`+name[:1]+`e":`...)
		b = strconv.AppendInt(b, int64(e), 10)
	}
	add("lo", lo, f)
	add("hi", f, hi)
	b = append(b, `,"ev":`...)
	b = appendBool(b, even)
	return append(b, '}')
}

func appendDigits(b []byte, s string) []byte {
	b = append(b, '[')
	for i := 0; i < len(s); i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, s[i]) // a digit is its own JSON
	}
	return append(b, ']')
}

type dumpMode int

const (
	encMode dumpMode = iota // Marshalers are opaque
	decMode                 // Unmarshalers are opaque
)

// a slice whose elements are bytes and nothing more
func byteSlice(rt reflect.Type) bool {
	return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Uint8 && !reflect.PointerTo(rt.Elem()).Implements(unmarshalerType)
}

func (t *typeTable) appendValue(b []byte, v reflect.Value, mode dumpMode) []byte {
	rt := v.Type()
	if mode == encMode && rt.Implements(marshalerType) && rt.Kind() != reflect.Interface {
		if rt.Kind() == reflect.Ptr && v.IsNil() {
			return append(b, `{"c":"n"}`...)
		}
		raw, er := marshRaw(exported(v))
		b = append(b, `{"c":"u","raw":`...)
		b = appendBytes(b, string(raw))
		b = append(b, `,"er":`...)
		b = appendBool(b, er)
		b = append(b, `,"z":`...)
		b = appendBool(b, v.IsZero())
		return append(b, '}')
	}
	if mode == decMode && reflect.PointerTo(rt).Implements(unmarshalerType) && rt.Kind() != reflect.Interface && rt.Kind() != reflect.Ptr {
		b = append(b, `{"c":"u","raw":`...)
		b = appendBytes(b, string(unmarshRaw(exported(v))))
		b = append(b, `,"er":false,"z":false`...)
		return append(b, '}')
	}
	switch rt.Kind() {
	case reflect.Bool:
		b = append(b, `{"c":"b","b":`...)
		b = appendBool(b, v.Bool())
		return append(b, '}')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s := strconv.FormatInt(v.Int(), 10)
		return appendIntVal(b, s)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return appendIntVal(b, strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b = appendFloat(b, v.Float(), rt.Bits())
		if f := v.Float(); t.bounds && mode == decMode && !t.old && f-f == 0 {
			b = appendBounds(b[:len(b)-1], math.Abs(f), rt.Bits())
		}
		return b
	case reflect.String:
		b = append(b, `{"c":"s","s":`...)
		b = appendBytes(b, v.String())
		return append(b, '}')
	case reflect.Slice:
		if v.IsNil() {
			return append(b, `{"c":"n"}`...)
		}
		if mode == encMode && rt == reflect.TypeFor[[]byte]() || mode == decMode && byteSlice(rt) {
			b = append(b, `{"c":"s","s":`...)
			b = appendBytes(b, string(v.Bytes()))
			return append(b, '}')
		}
		fallthrough
	case reflect.Array:
		b = append(b, `{"c":"l","l":[`...)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = t.appendValue(b, v.Index(i), mode)
		}
		return append(b, `]}`...)
	case reflect.Map:
		if v.IsNil() {
			return append(b, `{"c":"n"}`...)
		}
		var entries []string
		iter := v.MapRange()
		for iter.Next() {
			e := append([]byte(nil), `{"k":`...)
			e = t.appendValue(e, iter.Key(), mode)
			e = append(e, `,"v":`...)
			e = t.appendValue(e, iter.Value(), mode)
			e = append(e, '}')
			entries = append(entries, string(e))
		}
		sort.Strings(entries)
		b = append(b, `{"c":"m","m":[`...)
		b = append(b, strings.Join(entries, ",")...)
		return append(b, `]}`...)
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, `{"c":"n"}`...)
		}
		id := 0
		if rt.Elem().Size() > 0 {
			ptr := v.UnsafePointer()
			if _, ok := t.ids[ptr]; !ok && t.old {
				t.ids[ptr] = len(t.ids) + 1
			}
			id = t.ids[ptr]
		}
		b = append(b, `{"c":"p","v":`...)
		b = t.appendValue(b, v.Elem(), mode)
		b = append(b, `,"id":`...)
		b = strconv.AppendInt(b, int64(id), 10)
		return append(b, '}')
	case reflect.Interface:
		if v.IsNil() {
			return append(b, `{"c":"n"}`...)
		}
		b = append(b, `{"c":"a","y":`...)
		b = strconv.AppendInt(b, int64(t.add(v.Elem().Type())), 10)
		b = append(b, `,"v":`...)
		b = t.appendValue(b, v.Elem(), mode)
		return append(b, '}')
	case reflect.Struct:
		b = append(b, `{"c":"t","t":[`...)
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			f := rt.Field(i)
			if !f.IsExported() || f.Tag.Get("php") == "-" {
				b = t.appendExcluded(b, v.Field(i))
			} else {
				b = t.appendValue(b, v.Field(i), mode)
			}
		}
		return append(b, `]}`...)
	}
	if v.IsZero() {
		return append(b, `{"c":"n"}`...)
	}
	return append(b, `{"c":"x","x":1}`...)
}

// fields that must not be touched: a fingerprint of their content
func (t *typeTable) appendExcluded(b []byte, v reflect.Value) []byte {
	x := "0"
	if !v.IsZero() {
		switch v.Kind() {
		case reflect.Int:
			x = strconv.FormatInt(v.Int()%1000000, 10)
			if x == "0" {
				x = "1000000"
			}
		case reflect.String:
			x = strconv.Itoa(100000 + len(v.String()))
		default:
			x = "1"
		}
	}
	b = append(b, `{"c":"x","x":`...)
	b = append(b, x...)
	return append(b, '}')
}

func appendIntVal(b []byte, s string) []byte {
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = s[1:]
	}
	b = append(b, `{"c":"i","neg":`...)
	b = appendBool(b, neg)
	b = append(b, `,"d":`...)
	b = appendDigits(b, s)
	return append(b, '}')
}

// makes values reached through unexported fields readable
func exported(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	return n
}
