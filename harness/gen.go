package main

// Random types, values and texts. Nothing in here decides anything: the
// verdicts come from the specification, so this file only has to be diverse.

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"
)

type opts struct {
	maxDepth  int     // of types
	width     int     // max elements of containers
	strLen    int     // now and then a string of up to this length
	pNamed    float64 // named scalar and container types
	pMarsh    float64 // Marshaler types
	pUnm      float64 // Unmarshaler types
	pAny      float64 // empty interfaces
	pIface    float64 // non-empty interfaces
	pRec      float64 // recursive named types
	pBad      float64 // unsupported types
	pPtr      float64
	pStruct   float64
	pCont     float64 // slices, arrays, maps
	pStrOpt   float64 // string option on fields
	pOmit     float64
	pTag      float64
	pHidden   float64 // unexported / excluded fields
	pNilVal   float64
	pMarshErr float64
	anyDyn    bool // interfaces hold any supported value, not only what decoding gives
	rtSafe    bool // only types and values that survive a round trip
	scalarW   []int
	noFloat   bool
	deepKinds bool
	dupTags   float64
	extreme   float64 // boundary integers
	longFloat float64 // floats of more than 15 digits
	valid     bool    // texts have no broken numbers

	// texts
	pNull    float64
	pWrong   float64
	pObj     float64
	pUnknown float64
	pShuffle float64
	pSparse  float64
	pDup     float64
	pCount   float64 // wrong declared counts
	pMut     float64 // texts with random edits
	pOld     float64 // non-zero destinations
	pZero    float64 // values that are zero or empty
	pRange   float64 // integers around the limits of every width
}

func defaults() opts {
	return opts{
		maxDepth: 3, width: 3, strLen: 20, pNamed: .15, pAny: .12, pIface: .01, pRec: .05,
		pPtr: .12, pStruct: .22, pCont: .3, pStrOpt: .12, pOmit: .15, pTag: .5, pHidden: .1, pNilVal: .15,
		pNull: .06, pWrong: .02, pObj: .3, pUnknown: .25, pShuffle: .3, pSparse: .2, pDup: .05, pCount: .02,
		pMut: .1, pOld: .4, extreme: .3, anyDyn: true, pRange: .1,
	}
}

type gen struct {
	*rand.Rand
	o      opts
	recent []string
}

func newGen(seed int64, o opts) *gen { return &gen{Rand: rand.New(rand.NewSource(seed)), o: o} }

func (g *gen) p(x float64) bool    { return x > 0 && g.Float64() < x }
func pick[T any](g *gen, xs []T) T { return xs[g.Intn(len(xs))] }

var scalarTypes = []reflect.Type{
	reflect.TypeFor[bool](), reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](),
	reflect.TypeFor[int32](), reflect.TypeFor[int64](), reflect.TypeFor[uint](), reflect.TypeFor[uint8](),
	reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](),
	reflect.TypeFor[float32](), reflect.TypeFor[float64](), reflect.TypeFor[string](), reflect.TypeFor[string](),
}
var keyTypes = []reflect.Type{
	reflect.TypeFor[string](), reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](),
	reflect.TypeFor[int32](), reflect.TypeFor[int64](), reflect.TypeFor[uint](), reflect.TypeFor[uint8](),
	reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](),
}
var namedKeys = []reflect.Type{
	reflect.TypeFor[NStr](), reflect.TypeFor[NInt](), reflect.TypeFor[NUint8](), reflect.TypeFor[NInt64](), reflect.TypeFor[NUint64](), reflect.TypeFor[NInt8](),
}
var badTypes = []reflect.Type{
	reflect.TypeFor[chan int](), reflect.TypeFor[func()](), reflect.TypeFor[complex128](), reflect.TypeFor[complex64](),
	reflect.TypeFor[**int](), reflect.TypeFor[map[float64]int](), reflect.TypeFor[map[[1]int]int](), reflect.TypeFor[map[struct{ A int }]string](),
	reflect.TypeFor[***string](), reflect.TypeFor[EmbVal](), reflect.TypeFor[EmbPtr](), reflect.TypeFor[unsafe.Pointer](),
}

func (g *gen) keyType(decode bool) reflect.Type {
	if g.p(g.o.pNamed) {
		return pick(g, namedKeys)
	}
	if decode && !g.o.rtSafe && g.p(g.o.pUnm/2) {
		return pick(g, unmarshalerKeys)
	}
	if decode && !g.o.rtSafe && g.p(.08) {
		return reflect.TypeFor[any]()
	}
	return pick(g, keyTypes)
}

// a type; decode says what it is for (some types are only for one direction)
func (g *gen) typ(d int, decode bool) reflect.Type {
	o := &g.o
	if g.p(o.pBad) {
		return pick(g, badTypes)
	}
	if !decode && g.p(o.pMarsh) {
		return pick(g, marshalerTypes)
	}
	if decode && !o.rtSafe && g.p(o.pUnm) {
		return pick(g, unmarshalerTypes)
	}
	if o.rtSafe && g.p(o.pUnm) {
		return pick(g, []reflect.Type{reflect.TypeFor[MU](), reflect.TypeFor[MUStr]()})
	}
	if g.p(o.pAny) {
		if g.p(.1) && !o.rtSafe {
			return reflect.TypeFor[NAny]()
		}
		return reflect.TypeFor[any]()
	}
	if g.p(o.pIface) {
		return namedType
	}
	if g.p(o.pRec) {
		return pick(g, recTypes)
	}
	if d <= 0 {
		return g.scalar()
	}
	x := g.Float64()
	switch {
	case x < o.pPtr:
		for range 5 {
			t := g.typ(d-1, decode)
			if t.Kind() != reflect.Ptr && !(decode && t.Kind() == reflect.Interface && t.NumMethod() > 0) {
				return reflect.PointerTo(t)
			}
		}
		return reflect.TypeFor[*int]()
	case x < o.pPtr+o.pStruct:
		return g.structType(d-1, decode)
	case x < o.pPtr+o.pStruct+o.pCont:
		if g.p(o.pNamed * .4) {
			return pick(g, namedConts)
		}
		switch g.Intn(7) {
		case 0:
			return reflect.ArrayOf(g.Intn(4), g.typ(d-1, decode))
		case 1, 2, 3:
			return reflect.MapOf(g.keyType(decode), g.typ(d-1, decode))
		case 4:
			return reflect.TypeFor[[]byte]()
		}
		return reflect.SliceOf(g.typ(d-1, decode))
	}
	return g.scalar()
}

func (g *gen) scalar() reflect.Type {
	for {
		var t reflect.Type
		if g.p(g.o.pNamed) {
			t = pick(g, namedScalars)
		} else {
			t = pick(g, scalarTypes)
		}
		if g.o.noFloat && (t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64) {
			continue
		}
		return t
	}
}

var fieldNames = []string{"A", "B", "Cc", "Name", "X1", "Value_2", "Z", "Ab", "ID", "É"}
var tagNames = []string{"a", "b", "A", "B", "name", "Name", "x-1", "k:k", "sp ace", "{}", "a.b", "é", "名", "1", "0", "#!$", "[x]", "@~|", "-",
	"a'b", `a"b`, `a\b`, "a`b", "€", "a;b", "aa", "abcdefghijklmnopqrstuvwxyz0123456789", "=?<>", "ß", "٣", "\t", "cc", "CC"}
var tagOpts = []string{"omitempty", "string", "omitempty,string", "string,omitempty", "", "OMITEMPTY", " string", "other", "omitempty,omitempty", "strings",
	"other,omitempty", "string,", "omitempty ,string"}

func stringOptOK(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String:
		return true
	}
	return false
}

func quoteTag(v string) reflect.StructTag {
	return reflect.StructTag(`php:` + strconv.Quote(v))
}

var longTags = []string{"user_name", "first_name_of_user", "created_at", "updated_at", "a_key_of_more_than_thirty_two_bytes", "x:y:z", "item[0].name", "item[1].name"}

// what of s can be a tag
func tagText(s string) string {
	return strings.Map(func(c rune) rune {
		if strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c) || c < 128 && (unicode.IsLetter(c) || unicode.IsDigit(c)) {
			return c
		}
		return -1
	}, s)
}

func (g *gen) structType(d int, decode bool) reflect.Type {
	o := &g.o
	n := g.Intn(5)
	var fs []reflect.StructField
	used := map[string]bool{}
	keys := map[string]bool{}
	for i := 0; i < n; i++ {
		name := pick(g, fieldNames)
		if used[name] {
			continue
		}
		used[name] = true
		f := reflect.StructField{Name: name}
		if g.p(o.pHidden) {
			switch g.Intn(4) {
			case 0:
				f.Name = "priv" + name
				f.PkgPath = "verif"
				f.Type = pick(g, []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string]()})
				if g.p(.5) {
					f.Tag = quoteTag(pick(g, tagNames))
				}
			default:
				f.Type = pick(g, []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[chan int](), reflect.TypeFor[func()](), reflect.TypeFor[**int]()})
				f.Tag = `php:"-"`
			}
			fs = append(fs, f)
			continue
		}
		strOpt := g.p(o.pStrOpt)
		if strOpt {
			f.Type = g.scalar()
			if g.p(.25) {
				f.Type = reflect.PointerTo(f.Type)
			} else if !decode && g.p(.2) && !o.rtSafe {
				f.Type = reflect.TypeFor[any]()
			}
		} else {
			f.Type = g.typ(d, decode)
		}
		tag, has := "", false
		if g.p(o.pTag) {
			has = true
			if g.p(.7) {
				tag = pick(g, tagNames)
			}
			if g.p(.1) {
				tag = pick(g, longTags)
			}
			if len(fs) > 0 && g.p(.12) { // hardly another one
				if k := tagText(g.near(fieldKey(pick(g, fs)))); k != "" {
					tag = k
				}
			}
			if g.p(.015) {
				tag = g.edge(520)
			}
			if g.p(.3) {
				tag += "," + pick(g, tagOpts)
			}
		}
		if g.p(o.pOmit) {
			has = true
			tag += ",omitempty"
		}
		if strOpt {
			has = true
			tag += ",string"
		}
		key := tag
		if j := strings.IndexByte(tag, ','); j >= 0 {
			key = tag[:j]
		}
		if strings.ContainsAny(key, "'\"\\`€;\t") || key == "" {
			key = f.Name
		}
		if keys[key] && tag != "-" && !g.p(o.dupTags) {
			continue
		}
		keys[key] = true
		if strings.Contains(tag+",", ",string,") && !stringOptOK(f.Type) && !(f.Type.Kind() == reflect.Interface && !decode) && (o.rtSafe || !g.p(.02)) {
			continue
		}
		if o.rtSafe && strings.Contains(tag+",", ",string,") && (f.Type.Kind() == reflect.Interface || f.Type.Implements(marshalerType)) {
			continue
		}
		if has {
			f.Tag = quoteTag(tag)
			if g.p(.1) {
				f.Tag = `json:"zz" ` + f.Tag + ` yaml:"-"`
			}
		} else if g.p(.1) {
			f.Tag = `json:"zz,omitempty"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// ---- values

var interesting = []int64{0, 1, -1, 9, 10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1e18, -1e18, 999999999999999999}

// around a power of ten or of two
func (g *gen) power() uint64 {
	n := uint64(1)
	if g.p(.6) {
		for range g.Intn(20) {
			n *= 10
		}
	} else {
		n <<= g.Intn(64)
	}
	return n + uint64(g.Intn(4)) - 2
}

func (g *gen) int64() int64 {
	if g.p(g.o.extreme) {
		if g.p(.3) {
			n := int64(g.power())
			if g.p(.5) {
				n = -n
			}
			return n
		}
		return pick(g, interesting)
	}
	switch g.Intn(3) {
	case 0:
		return int64(g.Intn(20)) - 5
	case 1:
		return int64(g.Uint64()) >> uint(g.Intn(64))
	}
	return int64(g.Intn(2000)) - 1000
}

func (g *gen) uint64() uint64 {
	if g.p(g.o.extreme) {
		if g.p(.2) {
			return math.MaxUint64 - uint64(g.Intn(2))
		}
		if g.p(.4) {
			return g.power()
		}
		return uint64(pick(g, interesting))
	}
	return g.Uint64() >> uint(g.Intn(64))
}

func (g *gen) float(bits int) float64 {
	if g.p(.12) {
		return pick(g, []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()})
	}
	if g.p(g.o.longFloat) {
		if bits == 32 {
			for {
				f := math.Float32frombits(g.Uint32())
				if f == f {
					return float64(f)
				}
			}
		}
		for {
			f := math.Float64frombits(g.Uint64())
			if f == f {
				return f
			}
		}
	}
	s := g.floatText(bits)
	f, err := strconv.ParseFloat(s, bits)
	if err != nil {
		return 1.5
	}
	return f
}

// a decimal of up to 15 (6) significant digits in the normal range
func (g *gen) floatText(bits int) string {
	maxd, maxe := 15, 300
	if bits == 32 {
		maxd, maxe = 6, 36
	}
	n := 1 + g.Intn(maxd)
	var sb strings.Builder
	if g.p(.4) {
		sb.WriteByte('-')
	}
	sb.WriteByte(byte('1' + g.Intn(9)))
	for i := 1; i < n; i++ {
		if i == 1 {
			sb.WriteByte('.')
		}
		if i == n-1 {
			sb.WriteByte(byte('1' + g.Intn(9)))
		} else {
			sb.WriteByte(byte('0' + g.Intn(10)))
		}
	}
	e := 0
	switch g.Intn(4) {
	case 0:
		e = g.Intn(2*maxe) - maxe
	case 1:
		e = g.Intn(12) - 9
	case 2:
		e = 14 + g.Intn(10)
	default:
		e = g.Intn(6)
	}
	if bits == 32 && e > maxe {
		e = 3
	}
	sb.WriteByte('e')
	sb.WriteString(strconv.Itoa(e))
	return sb.String()
}

var stringPool = []string{"", "a", "ab", "A", "0", "1", "-1", "007", `"`, `";`, `";}`, `}`, `{`, ";", ":", "N;", "i:1;", `s:1:"a";`, "\x00", "\x00\x01", "\xff\xfe", "é",
	"名前", "true", "false", "1.5", "hello world", "line\nbreak", `\`, `\"`, "😀", "null", "9223372036854775807", "9223372036854775808", "name", "key", "b", "B",
	"a:1:{", `O:1:"a":0:{}`, "1e5", "\xc3", "  ", "INF", "NAN"}

// sizes at which representations change, somewhere
var edgeSizes = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}

// letters and digits, as many as some edge size
func (g *gen) edge(most int) string {
	n := pick(g, edgeSizes)
	for n > most {
		n = pick(g, edgeSizes)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = pick(g, []byte("abcxyzXYZ0123456789"))
	}
	return string(b)
}

func (g *gen) str() string {
	s := g.newStr()
	if n := len(g.recent); n > 0 && g.p(.08) {
		s = g.near(g.recent[g.Intn(n)])
	}
	if len(g.recent) < 12 {
		g.recent = append(g.recent, s)
	} else {
		g.recent[g.Intn(12)] = s
	}
	return s
}

// a string that something less than its bytes could take for s
func (g *gen) near(s string) string {
	if len(s) > 3000 {
		return s
	}
	b := []byte(s)
	n := len(b)
	switch g.Intn(14) {
	case 0:
		return s + pick(g, []string{"\x00", "\x00\x00", " ", "x", "\x00\x00\x00\x00\x00\x00\x00\x00"})
	case 1:
		return pick(g, []string{"\x00", " ", "x", "0"}) + s
	case 2:
		return s + s
	case 3:
		return pick(g, []string{strings.ToUpper(s), strings.ToLower(s)})
	}
	if n < 2 {
		return s + "\x00"
	}
	switch g.Intn(10) {
	case 0:
		return s[:n-1]
	case 1:
		return s[1:]
	case 2: // the same bytes in another order
		i, j := g.Intn(n), g.Intn(n)
		b[i], b[j] = b[j], b[i]
	case 3:
		slices.Reverse(b)
	case 4: // everything inside
		for i := 1; i < n-1; i++ {
			b[i] ^= 1
		}
	case 5: // the second half
		for i := n / 2; i < n; i++ {
			b[i] ^= 1
		}
	case 6:
		b[g.Intn(n)] ^= pick(g, []byte{0x20, 0x80, 1, 0xff})
	case 7: // all but the ends and the middle
		for i := 1; i < n-1; i++ {
			if i != n/2 && i != n/2-1 {
				b[i] ^= 3
			}
		}
	case 8: // one byte up, one down
		i, j := g.Intn(n), g.Intn(n)
		b[i]++
		b[j]--
	default: // only what is inside, somewhere
		b[n/4] ^= 1
		b[n-1-n/4] ^= 1
	}
	return string(b)
}

func (g *gen) newStr() string {
	switch {
	case g.p(.006):
		return g.edge(1025)
	case g.p(.7):
		return pick(g, stringPool)
	case g.p(.1):
		n := g.Intn(g.o.strLen + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		return string(b)
	}
	n := g.Intn(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = pick(g, []byte(`abcXYZ01 :;"{}Nisd`))
	}
	return string(b)
}

var anyDynTypes = []reflect.Type{
	reflect.TypeFor[[]any](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[int]any](),
	reflect.TypeFor[[]int](), reflect.TypeFor[[]string](), reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string]string](), reflect.TypeFor[map[int][]int](),
	reflect.TypeFor[*int](), reflect.TypeFor[*string](), reflect.TypeFor[*any](), reflect.TypeFor[[]byte](), reflect.TypeFor[NBytes](), reflect.TypeFor[NStr](), reflect.TypeFor[NInt](),
	reflect.TypeFor[[2]int](), reflect.TypeFor[[1]any](), reflect.TypeFor[RList](), reflect.TypeFor[*RTree](), reflect.TypeFor[map[string]map[string]int](),
	reflect.TypeFor[[][]string](), reflect.TypeFor[**int](), reflect.TypeFor[***string](), reflect.TypeFor[[]map[string]any](), reflect.TypeFor[struct {
		A int    `php:"a,omitempty"`
		B string `php:"b"`
		C any
	}](), reflect.TypeFor[*[]int](), reflect.TypeFor[*map[string]any](), reflect.TypeFor[map[NStr]*int](), reflect.TypeFor[**RList](), reflect.TypeFor[map[uint8]bool](),
	reflect.TypeFor[map[int8]any](), reflect.TypeFor[[0]int](), reflect.TypeFor[struct{}](), reflect.TypeFor[[]*int](), reflect.TypeFor[NMap](), reflect.TypeFor[NSlice](),
}

// fills v (settable)
func (g *gen) fill(v reflect.Value, d int, mode dumpMode) {
	t := v.Type()
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if mode == encMode && !g.o.rtSafe && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface && t.PkgPath() == "main" &&
		(t.Implements(marshalerType) || reflect.PointerTo(t).Implements(marshalerType)) {
		idx := g.marshIdx()
		setMarsh(v, idx)
		return
	}
	if mode == decMode && t.Kind() != reflect.Interface && t.Kind() != reflect.Ptr && reflect.PointerTo(t).Implements(unmarshalerType) {
		setUnmarsh(v, pick(g, []string{"i:5;", "old", `s:1:"z";`}))
		return
	}
	if mode == encMode && g.o.rtSafe && t.Kind() != reflect.Interface && t.Kind() != reflect.Ptr && t.Implements(marshalerType) {
		raw := "N;"
		for raw == "N;" {
			raw = g.wire(reflect.TypeFor[any](), 2).String()
		}
		setUnmarsh(v, raw)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := g.int64()
		if v.OverflowInt(x) {
			bits := uint(t.Bits())
			x = pick(g, []int64{-1 << (bits - 1), 1<<(bits-1) - 1, x << (64 - bits) >> (64 - bits), 0})
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := g.uint64()
		if v.OverflowUint(x) {
			bits := uint(t.Bits())
			x = pick(g, []uint64{1<<bits - 1, x << (64 - bits) >> (64 - bits), 0})
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		f := g.float(t.Bits())
		v.SetFloat(f)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Ptr:
		if d <= 0 || g.p(g.o.pNilVal) {
			return
		}
		v.Set(reflect.New(t.Elem()))
		if t.Name() != "" {
			v.Set(reflect.New(t.Elem()).Convert(t))
		}
		g.fill(v.Elem(), d-1, mode)
	case reflect.Slice:
		if g.p(g.o.pNilVal) {
			return
		}
		n := g.Intn(g.o.width + 1)
		if d <= 0 {
			n = 0
		}
		if (mode == encMode || byteSlice(t)) && t.Elem().Kind() == reflect.Uint8 && !reflect.PointerTo(t.Elem()).Implements(marshalerType) {
			s := g.str()
			v.Set(reflect.MakeSlice(t, len(s), len(s)+g.Intn(4)))
			for i := range len(s) {
				v.Index(i).SetUint(uint64(s[i]))
			}
			return
		}
		s := reflect.MakeSlice(t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), d-1, mode)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			g.fill(v.Index(i), d-1, mode)
		}
	case reflect.Map:
		if g.p(g.o.pNilVal) {
			return
		}
		m := reflect.MakeMap(t)
		n := g.Intn(g.o.width + 1)
		if d <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if t.Key().Kind() == reflect.Interface {
				if g.p(.5) {
					k.Set(reflect.ValueOf(g.int64()))
				} else {
					k.Set(reflect.ValueOf(g.str()))
				}
			} else {
				g.fill(k, 1, encMode)
			}
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, d-1, mode)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		g.fillIface(v, d, mode)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if g.p(.15) {
				continue
			}
			f := t.Field(i)
			if f.Tag.Get("php") == "-" && g.o.rtSafe {
				continue
			}
			if !f.IsExported() && g.o.rtSafe {
				continue
			}
			g.fill(v.Field(i), d-1, mode)
		}
	case reflect.Chan:
		if g.p(.5) {
			v.Set(reflect.MakeChan(t, 0))
		}
	}
}

func (g *gen) marshIdx() int {
	if len(registry) < 3 || g.p(.5) && len(registry) < 60 {
		m := marsh{raw: []byte(g.wire(reflect.TypeFor[any](), 2).String())}
		if g.p(.05) {
			m.raw = []byte(g.str()) // returned verbatim, whatever it is
		}
		if g.p(g.o.pMarshErr) {
			m.er = true
		}
		registry = append(registry, m)
	}
	return g.Intn(len(registry))
}

var decodedDyn = []reflect.Type{reflect.TypeFor[bool](), reflect.TypeFor[int64](), reflect.TypeFor[float64](), reflect.TypeFor[string](), reflect.TypeFor[map[any]any](), reflect.TypeFor[map[any]any](), reflect.TypeFor[map[any]any](), reflect.TypeFor[[]any]()}

var canonDyn = []reflect.Type{reflect.TypeFor[bool](), reflect.TypeFor[int64](), reflect.TypeFor[float64](), reflect.TypeFor[string]()}

func (g *gen) fillIface(v reflect.Value, d int, mode dumpMode) {
	if g.p(g.o.pNilVal) {
		return
	}
	t := v.Type()
	if t.NumMethod() > 0 {
		switch {
		case t == namedType && mode == decMode && g.p(.6):
			u := pick(g, []Named{&UStruct{Raw: []byte("prior")}, &UStruct{Raw: []byte("prior")}, new(UStr), &UFail{}, new(UInt)})
			g.fill(reflect.ValueOf(u).Elem(), 1, mode)
			v.Set(reflect.ValueOf(u))
		case t == namedType && g.p(.5):
			v.Set(reflect.ValueOf(NamedInt(g.Intn(100))))
		case t == namedType:
			v.Set(reflect.ValueOf(NamedStr{g.str()}))
		case t == marshalerType:
			mt := pick(g, marshalerTypes)
			for mt.Kind() == reflect.Interface || mt.Kind() == reflect.Ptr && mt.Elem().Kind() == reflect.Interface || !mt.Implements(marshalerType) {
				mt = pick(g, marshalerTypes)
			}
			x := reflect.New(mt).Elem()
			g.fill(x, 3, mode)
			v.Set(x)
		}
		return
	}
	if g.o.rtSafe {
		x := reflect.New(pick(g, canonDyn)).Elem()
		g.fill(x, 0, mode)
		v.Set(x)
		return
	}
	var dt reflect.Type
	if mode == decMode && g.p(.3) { // what an earlier Unmarshal left
		dt = pick(g, decodedDyn)
	} else if d <= 0 || g.p(.45) {
		dt = g.scalar()
	} else if mode == encMode && g.p(g.o.pMarsh) {
		dt = pick(g, marshalerTypes)
	} else if mode == encMode && g.p(g.o.pBad) {
		dt = pick(g, badTypes)
	} else {
		dt = pick(g, anyDynTypes)
	}
	if dt.Kind() == reflect.Interface {
		dt = reflect.TypeFor[int]()
	}
	x := reflect.New(dt).Elem()
	g.fill(x, d-1, mode)
	v.Set(x)
}

// ---- texts

type W struct {
	K   byte   // N b i d s a O, or x: raw text
	T   string // text or content
	Cls string
	E   []WE
	Cnt int // declared count if not exact (>= 0), else -1
}
type WE struct{ Key, Val *W }

func (w *W) String() string {
	var sb strings.Builder
	w.render(&sb)
	return sb.String()
}

func (w *W) render(sb *strings.Builder) {
	switch w.K {
	case 'N':
		sb.WriteString("N;")
	case 'b', 'i', 'd':
		sb.WriteByte(w.K)
		sb.WriteByte(':')
		sb.WriteString(w.T)
		sb.WriteByte(';')
	case 's':
		sb.WriteString("s:" + strconv.Itoa(len(w.T)) + `:"` + w.T + `";`)
	case 'a', 'O':
		if w.K == 'O' {
			sb.WriteString("O:" + strconv.Itoa(len(w.Cls)) + `:"` + w.Cls + `":`)
		} else {
			sb.WriteString("a:")
		}
		n := len(w.E)
		if w.Cnt >= 0 {
			n = w.Cnt
		}
		sb.WriteString(strconv.Itoa(n) + ":{")
		for _, e := range w.E {
			e.Key.render(sb)
			e.Val.render(sb)
		}
		sb.WriteByte('}')
	default:
		sb.WriteString(w.T)
	}
}

func wN() *W         { return &W{K: 'N', Cnt: -1} }
func wI(s string) *W { return &W{K: 'i', T: s, Cnt: -1} }
func wS(s string) *W { return &W{K: 's', T: s, Cnt: -1} }
func wD(s string) *W { return &W{K: 'd', T: s, Cnt: -1} }
func wB(b bool) *W   { return &W{K: 'b', T: strconv.Itoa(b2i(b)), Cnt: -1} }
func wA(es ...WE) *W { return &W{K: 'a', E: es, Cnt: -1} }

var classNames = []string{"stdClass", "A", "", `a"b`, "a:b", "N\\S\\C", "{}", `":1:{`, "é", "\x00", "abc", `";`}

// a little below or above what an integer can be
func (g *gen) nearLimit(n int) string {
	l := pick(g, []uint64{math.MaxInt64, math.MaxInt64, math.MaxUint64, math.MaxUint32, math.MaxInt32})
	return strconv.FormatUint(l-uint64(g.Intn(n)), 10)
}

func (g *gen) intText() string {
	x := strconv.FormatInt(g.int64(), 10)
	if g.p(g.o.pRange) {
		switch g.Intn(6) {
		case 0:
			x = strconv.FormatUint(g.uint64(), 10)
		case 1:
			x = pick(g, []string{"9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9999999999999999999",
				"10000000000000000000", "99999999999999999999", "-99999999999999999999", "100000000000000000000000000", "18446744073709551617",
				"27670116110564327424", "36893488147419103232", "-18446744073709551616", "-18446744073709551615"})
		case 2:
			neg := strings.HasPrefix(x, "-")
			x = strings.Repeat("0", 1+g.Intn(20)) + strings.TrimPrefix(x, "-")
			if neg {
				x = "-" + x
			}
		case 3:
			x = pick(g, []string{"-0", "00", "-00", "0"})
		case 4:
			b := uint(pick(g, []int{7, 8, 15, 16, 31, 32, 63}))
			v := int64(1) << b
			v += int64(g.Intn(3)) - 1
			if g.p(.4) {
				v = -v
			}
			x = strconv.FormatInt(v, 10)
		}
	}
	return x
}

func (g *gen) floatWire(bits int) string {
	switch g.Intn(10) {
	case 0:
		return pick(g, []string{"INF", "-INF", "NAN", "0", "-0", "0.0", "1", "-1", "1.0", "100", "1e5", "1E+5", "1.5e-7", ".5", "5.", "+1.5", "1e21", "1e-6", "0.000001", "123456789012345"})
	case 1:
		if g.p(.3) && !g.o.valid {
			return pick(g, []string{"1e400", "-1e309", "1e39", "3.5e38", "1e1000", "1e-400", "inf", "nan", "0x1p-2", "abc", "1.2.3", "1e", "e5", "--1", "1_0", ".", "+", "1 ", " 1", "1,5", "Infinity"})
		}
	}
	s := g.floatText(bits)
	if g.p(.5) {
		f, _ := strconv.ParseFloat(s, 64)
		if math.Abs(f) < 1e21 && math.Abs(f) > 1e-9 {
			s = strconv.FormatFloat(f, 'f', -1, 64)
		}
	}
	return s
}

// the key a field is read under (approximately, see opts)
func fieldKey(f reflect.StructField) string {
	tag, _, _ := strings.Cut(f.Tag.Get("php"), ",")
	if tag == "" || strings.ContainsAny(tag, "'\"\\`€;\t") || !utf8.ValidString(tag) {
		return f.Name
	}
	return tag
}

// the text of the zero value of a type, or of an empty container
func zeroWire(t reflect.Type) *W {
	switch t.Kind() {
	case reflect.Bool:
		return wB(false)
	case reflect.Float32, reflect.Float64:
		return wD("0")
	case reflect.String:
		return wS("")
	case reflect.Slice, reflect.Array, reflect.Map, reflect.Struct:
		if byteSlice(t) {
			return wS("")
		}
		return wA()
	case reflect.Ptr, reflect.Interface:
		return nil
	}
	return wI("0")
}

func (g *gen) wire(t reflect.Type, d int) *W {
	o := &g.o
	if g.p(o.pNull) {
		return wN()
	}
	if g.p(o.pWrong) || d < -4 {
		return g.randWire(2)
	}
	if t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(unmarshalerType) {
		return g.randWire(d)
	}
	if o.pZero > 0 && g.p(o.pZero) {
		if w := zeroWire(t); w != nil {
			return w
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		return wB(g.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if g.p(o.pRange) {
			return wI(g.intText())
		}
		x := reflect.New(t).Elem()
		g.fillPlain(x)
		if x.CanInt() {
			return wI(strconv.FormatInt(x.Int(), 10))
		}
		return wI(strconv.FormatUint(x.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		return wD(g.floatWire(t.Bits()))
	case reflect.String:
		return wS(g.str())
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Ptr { // pointers to pointers may not end
			d--
		}
		return g.wire(t.Elem(), d)
	case reflect.Interface:
		return g.randWire(d)
	case reflect.Slice, reflect.Array:
		if byteSlice(t) && g.p(.8) {
			return wS(g.str())
		}
		n := g.Intn(o.width + 2)
		if t.Kind() == reflect.Array && g.p(.7) {
			n = t.Len()
		}
		if d <= 0 {
			n = g.Intn(2)
		}
		w := wA()
		idx := 0
		for i := 0; i < n; i++ {
			w.E = append(w.E, WE{wI(strconv.Itoa(idx)), g.wire(t.Elem(), d-1)})
			idx++
			if g.p(o.pSparse) {
				idx += g.Intn(4)
			}
		}
		if t.Kind() == reflect.Array && g.p(o.pUnknown) {
			w.E = append(w.E, WE{wI(strconv.Itoa(t.Len() + g.Intn(100))), g.randWire(2)})
		}
		g.jumble(w)
		return w
	case reflect.Map:
		n := g.Intn(o.width + 2)
		if d <= 0 {
			n = g.Intn(2)
		}
		w := wA()
		for i := 0; i < n; i++ {
			var k *W
			kt := t.Key()
			if kt.Kind() == reflect.Interface {
				k = pick(g, []*W{wS(g.str()), wI(strconv.Itoa(g.Intn(10) - 3))})
			} else {
				k = g.wireKey(kt)
			}
			w.E = append(w.E, WE{k, g.wire(t.Elem(), d-1)})
		}
		g.jumble(w)
		g.obj(w)
		return w
	case reflect.Struct:
		w := wA()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if g.p(.2) {
				continue
			}
			key := fieldKey(f)
			if f.Tag.Get("php") == "-" {
				key = pick(g, []string{"-", f.Name})
			}
			var v *W
			if stringOptOK(f.Type) && strings.Contains(f.Tag.Get("php")+",", ",string,") && g.p(.9) {
				v = g.wireStringOpt(f.Type)
			} else {
				v = g.wire(f.Type, d-1)
			}
			w.E = append(w.E, WE{wS(key), v})
		}
		for g.p(o.pUnknown) && len(w.E) < 8 {
			key, v := g.str(), (*W)(nil)
			if len(w.E) > 0 && g.p(.5) {
				e := pick(g, w.E)
				key = g.near(e.Key.T)
				if g.p(.5) {
					v = e.Val.clone()
				}
			}
			if v == nil {
				v = g.randWire(3)
			}
			e := WE{wS(key), v}
			at := g.Intn(len(w.E) + 1)
			w.E = append(w.E[:at], append([]WE{e}, w.E[at:]...)...)
		}
		g.jumble(w)
		g.obj(w)
		return w
	}
	return g.randWire(2)
}

func (g *gen) fillPlain(x reflect.Value) {
	g.fill(x, 1, encModeNoHook)
}

const encModeNoHook dumpMode = 9

func (g *gen) wireKey(kt reflect.Type) *W {
	if reflect.PointerTo(kt).Implements(unmarshalerType) {
		return pick(g, []*W{wS(g.str()), wS(g.str() + "!"), wI(g.intText())})
	}
	if kt.Kind() == reflect.String {
		return wS(g.str())
	}
	if g.p(g.o.pRange) {
		return wI(g.intText())
	}
	x := reflect.New(kt).Elem()
	g.fillPlain(x)
	if x.CanInt() {
		return wI(strconv.FormatInt(x.Int(), 10))
	}
	if x.CanUint() {
		return wI(strconv.FormatUint(x.Uint(), 10))
	}
	return wI("1")
}

func (g *gen) wireStringOpt(t reflect.Type) *W {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool:
		if g.p(.1) {
			return wS(pick(g, []string{"1", "T", "yes", "", "TRUE", "truee", "true "}))
		}
		return wS(pick(g, []string{"true", "false"}))
	case reflect.Float32, reflect.Float64:
		return wS(g.floatWire(t.Bits()))
	case reflect.String:
		return wS(g.str())
	}
	if g.p(.15) {
		return wS(pick(g, []string{"", "-", "1a", "a", " 1", "1 ", "+1", "1.0", "0x1", "1;", "--1", "１", "1_0", "1\x00"}))
	}
	w := g.wireKey(t)
	w.K = 's'
	return w
}

func (g *gen) jumble(w *W) {
	o := &g.o
	if g.p(o.pDup) && len(w.E) > 0 {
		e := pick(g, w.E)
		w.E = append(w.E, WE{e.Key, pick(g, w.E).Val})
	}
	if g.p(o.pShuffle) {
		g.Shuffle(len(w.E), func(i, j int) { w.E[i], w.E[j] = w.E[j], w.E[i] })
	}
	if g.p(o.pCount) {
		w.Cnt = pick(g, []int{0, 1, len(w.E) + 1, max(0, len(w.E)-1), 10, 1000000, math.MaxInt64})
	}
}

func (g *gen) obj(w *W) {
	if g.p(g.o.pObj) {
		w.K = 'O'
		w.Cls = pick(g, classNames)
		if g.p(.1) {
			w.Cls = g.str()
		}
		if g.p(.01) {
			w.Cls = g.edge(520)
		}
	}
}

// a value of any kind
func (g *gen) randWire(d int) *W {
	k := g.Intn(10)
	if d <= 0 {
		k = g.Intn(7)
	}
	switch k {
	case 0:
		return wN()
	case 1:
		return wB(g.Intn(2) == 0)
	case 2, 3:
		return wI(g.intText())
	case 4:
		return wD(g.floatWire(64))
	case 5, 6:
		return wS(g.str())
	}
	w := wA()
	n := g.Intn(g.o.width + 1)
	for i := 0; i < n; i++ {
		var key *W
		switch g.Intn(3) {
		case 0:
			key = wI(strconv.Itoa(i))
		case 1:
			key = wS(g.str())
		default:
			key = wI(strconv.FormatInt(g.int64(), 10))
		}
		w.E = append(w.E, WE{key, g.randWire(d - 1)})
	}
	g.jumble(w)
	g.obj(w)
	return w
}

var editBytes = []byte("NbidsaO:;{}\"0123459-+.eE \x00\xffxnA")

// one to three random edits; numbers that would become large sequence indexes
// are left alone, as decoding those may use memory
func (g *gen) mutate(s string) string {
	for range 6 {
		if m := g.edit(s); m == s || !bigNumber.MatchString(m) {
			return m
		}
	}
	return s[:g.Intn(len(s)+1)]
}

// s with a number made equal in the low bits only
func (g *gen) wrapped(s string) string {
	at := numbers.FindAllStringIndex(s, -1)
	if len(at) == 0 {
		return s
	}
	m := pick(g, at)
	x, _ := new(big.Int).SetString(s[m[0]:m[1]], 10)
	d := new(big.Int).Lsh(big.NewInt(1), pick(g, []uint{8, 16, 31, 32, 32, 32, 63, 64}))
	if g.p(.2) {
		d.Mul(d, big.NewInt(int64(1+g.Intn(3))))
	}
	return s[:m[0]] + x.Add(x, d).String() + s[m[1]:]
}

var numbers = regexp.MustCompile(`[0-9]+`)
var bigNumber = regexp.MustCompile(`i:0*[1-9][0-9]{5,17}(;|$)`)

func (g *gen) edit(s string) string {
	b := []byte(s)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, pick(g, editBytes))
			continue
		}
		i := g.Intn(len(b))
		switch g.Intn(11) {
		case 0, 1:
			b = b[:i]
		case 2, 3:
			b[i] = pick(g, editBytes)
		case 4:
			b = append(b[:i], b[i+1:]...)
		case 5:
			b = append(b[:i], append([]byte{pick(g, editBytes)}, b[i:]...)...)
		case 6:
			b = append(b, pick(g, editBytes))
		case 7: // change a digit
			for j := 0; j < len(b); j++ {
				p := (i + j) % len(b)
				if b[p] >= '0' && b[p] <= '9' {
					b[p] = byte('0' + g.Intn(10))
					break
				}
			}
		case 10: // a number that is the same in fewer bits, or near a limit
			at := numbers.FindAllIndex(b, -1)
			if len(at) == 0 {
				continue
			}
			m := pick(g, at)
			x, _ := strconv.ParseUint(string(b[m[0]:m[1]]), 10, 64)
			switch g.Intn(4) {
			case 0:
				x = math.MaxInt64 - uint64(g.Intn(len(b)+8))
			case 1:
				x = math.MaxUint64 - uint64(g.Intn(len(b)+8))
			case 2:
				x = uint64(1)<<pick(g, []uint{31, 32, 62, 63}) - uint64(g.Intn(4))
			default:
				x += 1 << pick(g, []uint{8, 16, 32, 63})
			}
			b = append(b[:m[0]:m[0]], append([]byte(strconv.FormatUint(x, 10)), b[m[1]:]...)...)
		case 8: // swap neighbours
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 9: // remove or duplicate a chunk
			j := i + g.Intn(min(8, len(b)-i)+1)
			if g.p(.5) {
				b = append(b[:i:i], b[j:]...)
			} else {
				b = append(b[:j:j], b[i:]...)
			}
		}
	}
	return string(b)
}
