package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	php "github.com/trim21/go-phpserialize"
)

// ---- named scalar and container types without methods

type (
	NBool   bool
	NInt    int
	NInt8   int8
	NInt16  int16
	NInt32  int32
	NInt64  int64
	NUint   uint
	NUint8  uint8
	NUint16 uint16
	NUint32 uint32
	NUint64 uint64
	NF32    float32
	NF64    float64
	NStr    string
	NBytes  []byte
	NSlice  []int
	NMap    map[string]int
	NArr    [2]int
	NAny    any
	NPtr    *int
)

// ---- recursive types

type (
	RSlice []RSlice
	RMap   map[string]RMap
	RIMap  map[int]RIMap
	RArr   [2]*RArr
	RList  struct {
		V    int    `php:"v"`
		Next *RList `php:"next"`
	}
	RTree struct {
		Name string           `php:"name"`
		Kids []RTree          `php:"kids"`
		Idx  map[string]RTree `php:"idx"`
		Up   *RTree           `php:"up,omitempty"`
	}
	RMutA struct {
		B  *RMutB  `php:"b"`
		Bs []RMutB `php:"bs"`
	}
	RMutB struct {
		A  *RMutA            `php:"a"`
		M  map[string]*RMutA `php:"m"`
		Ar [2]*RMutB         `php:"ar"`
		X  any               `php:"x"`
	}
	RPSlice []*RPSlice
	RMSlice map[string][]RMSlice
	RIMp    *map[string]RIMp
)

// ---- Marshalers. What they return is in the value itself or, for the ones
// that are not structs, in a registry indexed by the value.

type marsh struct {
	raw []byte
	er  bool
}

var registry = []marsh{{raw: []byte("i:0;")}}
var marshalCalls int

var errUser = errors.New("user error")

func regMarshal(i int) ([]byte, error) {
	marshalCalls++
	if i < 0 || i >= len(registry) {
		panic(fmt.Sprintf("registry index %d", i))
	}
	if registry[i].er {
		return []byte("never written"), errUser
	}
	return registry[i].raw, nil
}

type (
	MInt    int
	MUint8  uint8
	MFloat  float64
	MBool   bool
	MStr    string
	MSlice  []int
	MMap    map[string]int
	MArr    [1]int
	MStruct struct{ I int }
	MBytes  []byte
	MEmb    struct { // a promoted method
		X string
		MStruct
		Y chan int
	}
	MChan chan int // kinds that are not supported otherwise
	MFunc func() int
	MCplx complex128
	// pointer receivers
	PInt    int
	PStruct struct{ I int }
	PMap    map[string]int
	PSlice  []int
	PStr    string
)

func (m MInt) MarshalPHP() ([]byte, error)    { return regMarshal(int(m)) }
func (m MUint8) MarshalPHP() ([]byte, error)  { return regMarshal(int(m)) }
func (m MFloat) MarshalPHP() ([]byte, error)  { return regMarshal(int(m)) }
func (m MBool) MarshalPHP() ([]byte, error)   { return regMarshal(b2i(bool(m))) }
func (m MStr) MarshalPHP() ([]byte, error)    { return regMarshal(len(m)) }
func (m MSlice) MarshalPHP() ([]byte, error)  { return regMarshal(first(m)) }
func (m MMap) MarshalPHP() ([]byte, error)    { return regMarshal(m["i"]) }
func (m MArr) MarshalPHP() ([]byte, error)    { return regMarshal(m[0]) }
func (m MStruct) MarshalPHP() ([]byte, error) { return regMarshal(m.I) }
func (m MBytes) MarshalPHP() ([]byte, error)  { return regMarshal(len(m)) }
func (m MChan) MarshalPHP() ([]byte, error)   { return regMarshal(cap(m)) }
func (m MCplx) MarshalPHP() ([]byte, error)   { return regMarshal(int(real(m))) }
func (m MFunc) MarshalPHP() ([]byte, error)   { return regMarshal(m.index()) }
func (m MFunc) index() int {
	if m == nil {
		return 0
	}
	return m()
}
func (m *PInt) MarshalPHP() ([]byte, error) { return regMarshal(int(*m)) }
func (m *PStruct) MarshalPHP() ([]byte, error) {
	return regMarshal(m.I)
}
func (m *PMap) MarshalPHP() ([]byte, error)   { return regMarshal((*m)["i"]) }
func (m *PSlice) MarshalPHP() ([]byte, error) { return regMarshal(first(*m)) }
func (m *PStr) MarshalPHP() ([]byte, error)   { return regMarshal(len(*m)) }

func first(s []int) int {
	if len(s) == 0 {
		return 0
	}
	return s[0]
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var marshalerType = reflect.TypeOf((*php.Marshaler)(nil)).Elem()
var unmarshalerType = reflect.TypeOf((*php.Unmarshaler)(nil)).Elem()
var stringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()

var marshalerTypes = []reflect.Type{
	reflect.TypeFor[MInt](), reflect.TypeFor[MUint8](), reflect.TypeFor[MFloat](), reflect.TypeFor[MBool](),
	reflect.TypeFor[MStr](), reflect.TypeFor[MSlice](), reflect.TypeFor[MMap](), reflect.TypeFor[MArr](),
	reflect.TypeFor[MStruct](), reflect.TypeFor[MBytes](), reflect.TypeFor[MEmb](), reflect.TypeFor[*MEmb](), reflect.TypeFor[MChan](), reflect.TypeFor[MFunc](), reflect.TypeFor[MCplx](),
	reflect.TypeFor[PInt](), reflect.TypeFor[PStruct](), reflect.TypeFor[PMap](), reflect.TypeFor[PSlice](),
	reflect.TypeFor[PStr](),
	reflect.TypeFor[MU](), reflect.TypeFor[MUStr](), reflect.TypeFor[*MU](), reflect.TypeFor[*MUStr](),
	reflect.TypeFor[*MInt](), reflect.TypeFor[*MFloat](), reflect.TypeFor[*MStr](), reflect.TypeFor[*MSlice](), reflect.TypeFor[*MMap](),
	reflect.TypeFor[*MStruct](), reflect.TypeFor[*PInt](), reflect.TypeFor[*PStruct](), reflect.TypeFor[*PMap](), reflect.TypeFor[*PSlice](), reflect.TypeFor[*PStr](),
	reflect.TypeFor[php.Marshaler](), reflect.TypeFor[*php.Marshaler](),
}

// ---- Unmarshalers: keep a copy of the bytes they were given, and log them

var unmarshalLog [][]byte

// Unmarshalers keep a copy and then spoil what they were given, and what lies
// behind it if it is theirs to append to.
func logUnmarshal(b []byte) []byte {
	mine := append([]byte{}, b...)
	unmarshalLog = append(unmarshalLog, mine)
	_ = append(b, "!}~"...)
	for i := range b {
		b[i] = '~'
	}
	return mine
}

type (
	UStruct struct{ Raw []byte }
	UStr    string
	UMap    map[string]string
	USlice  []string
	UInt    int
	UArr    [1]string
	UFail   struct{ Raw []byte }
	UKey    struct{ V any } // comparable or not
	UByte   uint8           // a slice of them is not a slice of bytes
	UEmb    struct {        // a promoted method
		X int
		UStruct
	}
	UCplx complex128
	// both directions
	MU    struct{ Raw string }
	MUStr string
)

var uintReg = []string{""}

func (u *UStruct) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	u.Raw = append([]byte{}, b...)
	return nil
}
func (u *UStr) UnmarshalPHP(b []byte) error { b = logUnmarshal(b); *u = UStr(b); return nil }
func (u *UMap) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	*u = UMap{"raw": string(b)}
	return nil
}
func (u *USlice) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	*u = USlice{string(b)}
	return nil
}
func (u *UArr) UnmarshalPHP(b []byte) error { b = logUnmarshal(b); u[0] = string(b); return nil }
func (u *UInt) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	uintReg = append(uintReg, string(b))
	*u = UInt(len(uintReg) - 1)
	return nil
}
func (u *UCplx) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	uintReg = append(uintReg, string(b))
	*u = UCplx(complex(float64(len(uintReg)-1), 0))
	return nil
}
func (u *UByte) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	uintReg = append(uintReg, string(b))
	*u = UByte(len(uintReg) - 1)
	return nil
}
func (u *UFail) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	u.Raw = append([]byte{}, b...)
	return errUser
}
func (u *UKey) UnmarshalPHP(b []byte) error {
	b = logUnmarshal(b)
	u.V = string(b)
	if bytes.IndexByte(b, '!') >= 0 {
		u.V = []string{string(b)}
	}
	return nil
}
func (u *MU) UnmarshalPHP(b []byte) error    { b = logUnmarshal(b); u.Raw = string(b); return nil }
func (u *MUStr) UnmarshalPHP(b []byte) error { b = logUnmarshal(b); *u = MUStr(b); return nil }
func (u MU) MarshalPHP() ([]byte, error)     { marshalCalls++; return orNull(u.Raw), nil }
func (u MUStr) MarshalPHP() ([]byte, error)  { marshalCalls++; return orNull(string(u)), nil }

func orNull(s string) []byte {
	if s == "" {
		return []byte("N;")
	}
	return []byte(s)
}

var unmarshalerTypes = []reflect.Type{
	reflect.TypeFor[UStruct](), reflect.TypeFor[UStr](), reflect.TypeFor[UMap](), reflect.TypeFor[USlice](),
	reflect.TypeFor[UInt](), reflect.TypeFor[UArr](), reflect.TypeFor[UFail](), reflect.TypeFor[MU](), reflect.TypeFor[MUStr](), reflect.TypeFor[UKey](), reflect.TypeFor[UEmb](), reflect.TypeFor[UCplx](),
}

var unmarshalerKeys = []reflect.Type{reflect.TypeFor[UStr](), reflect.TypeFor[UArr](), reflect.TypeFor[MU](), reflect.TypeFor[MUStr](), reflect.TypeFor[UKey](), reflect.TypeFor[UKey]()}

// raw bytes a Marshaler returns (m) and whether it fails
func marshRaw(v reflect.Value) (raw []byte, er bool) {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	idx := 0
	switch x := v.Interface().(type) {
	case MU:
		return orNull(x.Raw), false
	case MUStr:
		return orNull(string(x)), false
	case MInt:
		idx = int(x)
	case MUint8:
		idx = int(x)
	case MFloat:
		idx = int(x)
	case MBool:
		idx = b2i(bool(x))
	case MStr:
		idx = len(x)
	case MSlice:
		idx = first(x)
	case MMap:
		idx = x["i"]
	case MArr:
		idx = x[0]
	case MStruct:
		idx = x.I
	case MBytes:
		idx = len(x)
	case MEmb:
		idx = x.I
	case MChan:
		idx = cap(x)
	case MFunc:
		idx = x.index()
	case MCplx:
		idx = int(real(x))
	case PInt:
		idx = int(x)
	case PStruct:
		idx = x.I
	case PMap:
		idx = x["i"]
	case PSlice:
		idx = first(x)
	case PStr:
		idx = len(x)
	default:
		panic("marshRaw: " + v.Type().String())
	}
	return registry[idx].raw, registry[idx].er
}

// sets a catalog Marshaler (not a pointer) to return registry[idx]
func setMarsh(v reflect.Value, idx int) {
	switch p := v.Addr().Interface().(type) {
	case *MU:
		p.Raw = string(registry[idx].raw)
	case *MUStr:
		*p = MUStr(registry[idx].raw)
	case *MInt:
		*p = MInt(idx)
	case *MUint8:
		*p = MUint8(idx)
	case *MFloat:
		*p = MFloat(idx)
	case *MBool:
		*p = MBool(idx%2 == 1)
	case *MStr:
		*p = MStr(make([]byte, idx))
	case *MSlice:
		*p = MSlice{idx}
	case *MMap:
		*p = MMap{"i": idx}
	case *MArr:
		*p = MArr{idx}
	case *MStruct:
		p.I = idx
	case *MBytes:
		*p = make([]byte, idx)
	case *MEmb:
		p.I = idx
	case *MChan:
		*p = make(MChan, idx)
	case *MFunc:
		*p = func() int { return idx }
	case *MCplx:
		*p = MCplx(complex(float64(idx), 1))
	case *PInt:
		*p = PInt(idx)
	case *PStruct:
		p.I = idx
	case *PMap:
		*p = PMap{"i": idx}
	case *PSlice:
		*p = PSlice{idx}
	case *PStr:
		*p = PStr(make([]byte, idx))
	default:
		panic("setMarsh: " + v.Type().String())
	}
}

// the bytes an Unmarshaler holds
func unmarshRaw(v reflect.Value) []byte {
	switch x := v.Interface().(type) {
	case UStruct:
		return x.Raw
	case UFail:
		return x.Raw
	case UEmb:
		return x.Raw
	case UCplx:
		return []byte(uintReg[int(real(x))])
	case UStr:
		return []byte(x)
	case UKey:
		if l, ok := x.V.([]string); ok {
			return []byte(l[0])
		}
		s, _ := x.V.(string)
		return []byte(s)
	case UMap:
		return []byte(x["raw"])
	case USlice:
		if len(x) == 0 {
			return nil
		}
		return []byte(x[0])
	case UArr:
		return []byte(x[0])
	case UInt:
		return []byte(uintReg[x])
	case UByte:
		return []byte(uintReg[x])
	case MU:
		return []byte(x.Raw)
	case MUStr:
		return []byte(x)
	}
	panic("unmarshRaw: " + v.Type().String())
}

func setUnmarsh(v reflect.Value, raw string) {
	switch p := v.Addr().Interface().(type) {
	case *UStruct:
		p.Raw = []byte(raw)
	case *UFail:
		p.Raw = []byte(raw)
	case *UEmb:
		p.Raw = []byte(raw)
	case *UCplx:
		uintReg = append(uintReg, raw)
		*p = UCplx(complex(float64(len(uintReg)-1), 0))
	case *UStr:
		*p = UStr(raw)
	case *UKey:
		p.V = raw
	case *UMap:
		*p = UMap{"raw": raw}
	case *USlice:
		*p = USlice{raw}
	case *UArr:
		p[0] = raw
	case *UInt:
		uintReg = append(uintReg, raw)
		*p = UInt(len(uintReg) - 1)
	case *UByte:
		uintReg = append(uintReg, raw)
		*p = UByte(len(uintReg) - 1)
	case *MU:
		p.Raw = raw
	case *MUStr:
		*p = MUStr(raw)
	default:
		panic("setUnmarsh: " + v.Type().String())
	}
}

// a non-empty interface and a type implementing it that is not an Unmarshaler
type Named interface{ Name() string }
type NamedInt int
type NamedStr struct{ S string }

func (NamedInt) Name() string { return "int" }
func (NamedStr) Name() string { return "str" }
func (*UStruct) Name() string { return "ustruct" }
func (*UStr) Name() string    { return "ustr" }
func (*UInt) Name() string    { return "uint" }
func (*UFail) Name() string   { return "ufail" }

var namedType = reflect.TypeFor[Named]()

// struct types with unexported and excluded fields, embedded structs ...
type (
	Hidden struct {
		A int      `php:"a"`
		b string   `php:"b"`
		C chan int `php:"-"`
		D string   `php:"d"`
		E func()   `php:"-"`
	}
	EmbVal struct {
		Inner
		X int
	}
	EmbPtr struct {
		*Inner
		X int
	}
	EmbIgnored struct {
		Inner `php:"-"`
		X     int
	}
	Inner        struct{ Y int }
	EmbNonStruct struct {
		NInt
		X int
	}
)

var _ = Hidden{b: ""}.b

var recTypes = []reflect.Type{
	reflect.TypeFor[RSlice](), reflect.TypeFor[RMap](), reflect.TypeFor[RIMap](), reflect.TypeFor[RArr](),
	reflect.TypeFor[RList](), reflect.TypeFor[RTree](), reflect.TypeFor[RMutA](), reflect.TypeFor[RMutB](),
	reflect.TypeFor[RPSlice](), reflect.TypeFor[RMSlice](), reflect.TypeFor[RIMp](),
	reflect.TypeFor[EmbNonStruct](), reflect.TypeFor[EmbIgnored](),
	same1(), same2(), same3(), same4(), same5(), same6(),
}

// different types of one name
func same1() reflect.Type {
	type Same struct {
		A int `php:"a"`
		B string
	}
	return reflect.TypeFor[Same]()
}

func same2() reflect.Type {
	type Same struct {
		A string `php:"a"`
		B int
	}
	return reflect.TypeFor[Same]()
}

func same3() reflect.Type {
	type Same struct {
		A    *Same `php:"b"`
		B, C int16
	}
	return reflect.TypeFor[Same]()
}

func same4() reflect.Type {
	type Same []int
	return reflect.TypeFor[Same]()
}

func same5() reflect.Type {
	type Same map[string]*Same
	return reflect.TypeFor[Same]()
}

func same6() reflect.Type {
	type Same []string
	type In struct{ X Same }
	return reflect.TypeFor[In]()
}

var namedScalars = []reflect.Type{
	reflect.TypeFor[NBool](), reflect.TypeFor[NInt](), reflect.TypeFor[NInt8](), reflect.TypeFor[NInt16](),
	reflect.TypeFor[NInt32](), reflect.TypeFor[NInt64](), reflect.TypeFor[NUint](), reflect.TypeFor[NUint8](),
	reflect.TypeFor[NUint16](), reflect.TypeFor[NUint32](), reflect.TypeFor[NUint64](), reflect.TypeFor[NF32](),
	reflect.TypeFor[NF64](), reflect.TypeFor[NStr](),
}
var namedConts = []reflect.Type{
	reflect.TypeFor[NBytes](), reflect.TypeFor[NSlice](), reflect.TypeFor[NMap](), reflect.TypeFor[NArr](),
}
