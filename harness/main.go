package main

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	php "github.com/trim21/go-phpserialize"
)

// A run executes cases of one profile against the library and records them
// as two ndjson files, one line per call: dec.ndjson (calls of Unmarshal) and
// enc.ndjson (calls of Marshal).
type run struct {
	*gen
	out     string
	seed    int64
	profile string
	only    int // -1: all
	id      int // of the case being made
	sub     int // calls recorded for the case
	enc     *bufio.Writer
	dec     *bufio.Writer
	fenc    *os.File
	fdec    *os.File
	prog    *os.File
	later   []*lateCall // calls made together afterwards
	measure bool        // record how much memory calls allocate
}

// id of the n-th call of a case
func (r *run) callID() int { return r.id*1000 + r.sub }

var started atomic.Int64
var current atomic.Int64

func watchdog(out string) {
	for {
		time.Sleep(200 * time.Millisecond)
		if s := started.Load(); s != 0 && time.Since(time.Unix(0, s)) > 30*time.Second {
			os.WriteFile(filepath.Join(out, "crash"), []byte(fmt.Sprintf("hang %d\n", current.Load())), 0o644)
			os.Exit(17)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 5<<30 {
			os.WriteFile(filepath.Join(out, "crash"), []byte(fmt.Sprintf("memory %d\n", current.Load())), 0o644)
			os.Exit(17)
		}
	}
}

// runs f, which calls the library once; notes the case on disk when that may
// end the process
func (r *run) guard(risky bool, f func()) (panicked string) {
	current.Store(int64(r.callID()))
	if risky {
		r.prog.WriteAt([]byte(fmt.Sprintf("%-20d\n", r.callID())), 0)
	}
	started.Store(time.Now().UnixNano())
	defer func() {
		started.Store(0)
		if e := recover(); e != nil {
			panicked = fmt.Sprint(e)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}

type decCase struct {
	rt    reflect.Type
	in    []byte
	old   reflect.Value // addressable, of type rt, or invalid for zero
	canon bool
	ctl   int // id of the call that has to be right for this one to count
	note  string
	quiet bool          // only a control
	big   bool          // large indexes are intended
	late  bool          // look at the result only after more has happened
	orig  reflect.Value // round trip: the value that was marshalled
}

func (r *run) decode(k decCase) (id int, ret reflect.Value, ok bool) {
	r.sub++
	id = r.callID()
	if !k.big && bigKey(string(k.in)) && hasSlice(k.rt, map[reflect.Type]bool{}) {
		return
	}
	dst := reflect.New(k.rt)
	if k.old.IsValid() {
		dst.Elem().Set(k.old)
	}
	if r.later != nil {
		r.later = append(r.later, r.decodeLater(id, k))
		return
	}
	t := newTypeTable()
	t.bounds = r.profile == "C10"
	ti := t.add(k.rt)
	t.old = true
	oldDump := t.appendValue(nil, dst.Elem(), decMode)
	t.old = false
	in := append([]byte(nil), k.in...)
	unmarshalLog = nil
	var err error
	mem := r.allocated()
	panicked := r.guard(true, func() { err = shown(php.Unmarshal(in, dst.Interface())) })
	mem = r.allocated() - mem
	log := unmarshalLog
	inm := string(in) != string(k.in)
	if k.late {
		for i := range in {
			in[i] = '!'
		}
		r.disturb(k.rt, k.in)
	}
	r.recordDec(k, id, t, ti, dst, oldDump, err, panicked, mem, inm, log)
	return id, dst.Elem(), err == nil && panicked == ""
}

func (r *run) recordDec(k decCase, id int, t *typeTable, ti int, dst reflect.Value, oldDump []byte, err error, panicked string, mem int64, inm bool, log [][]byte) {
	newDump := []byte(`{"c":"n"}`)
	if err == nil && panicked == "" {
		newDump = t.appendValue(nil, dst.Elem(), decMode)
	}
	var origDump []byte
	if k.orig.IsValid() {
		origDump = t.appendValue(nil, k.orig, encMode)
	}
	b := []byte(`{"id":`)
	b = strconv.AppendInt(b, int64(id), 10)
	b = append(b, `,"ctl":`...)
	b = strconv.AppendInt(b, int64(k.ctl), 10)
	b = append(b, `,"quiet":`...)
	b = appendBool(b, k.quiet)
	b = append(b, `,"note":`...)
	b = strconv.AppendQuoteToASCII(b, k.note)
	b = append(b, `,"mem":`...)
	b = strconv.AppendInt(b, mem, 10)
	b = append(b, `,"types":[`...)
	for i, n := range t.nodes {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, n...)
	}
	b = append(b, `],"t":`...)
	b = strconv.AppendInt(b, int64(ti), 10)
	b = append(b, `,"in":`...)
	b = appendBytes(b, string(k.in))
	b = append(b, `,"old":`...)
	b = append(b, oldDump...)
	b = append(b, `,"new":`...)
	b = append(b, newDump...)
	b = append(b, `,"err":`...)
	b = appendBool(b, err != nil)
	b = append(b, `,"pan":`...)
	b = appendBool(b, panicked != "")
	b = append(b, `,"inm":`...)
	b = appendBool(b, inm)
	b = append(b, `,"canon":`...)
	b = appendBool(b, k.canon)
	b = append(b, `,"log":[`...)
	for i, l := range log {
		if i > 0 {
			b = append(b, ',')
		}
		b = appendBytes(b, string(l))
	}
	b = append(b, `],"rt":`...)
	b = appendBool(b, k.orig.IsValid())
	b = append(b, `,"orig":`...)
	if k.orig.IsValid() {
		b = append(b, origDump...)
	} else {
		b = append(b, `{"c":"n"}`...)
	}
	b = append(b, "}\n"...)
	r.dec.Write(b)
	if *verbose {
		fmt.Printf("%d %s %s dest=%v\n  in  %q\n  old %s\n  new %s\n  err=%v panic=%q log=%q\n", id, r.profile, k.note, k.rt, k.in, oldDump, newDump, err, panicked, log)
		if err == nil && panicked == "" {
			fmt.Printf("  go value %+v\n", dst.Elem())
		}
	}
}

// KB allocated so far
func (r *run) allocated() int64 {
	if !r.measure {
		return 0
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.TotalAlloc >> 10)
}

// errors can be shown
func shown(err error) error {
	if err != nil {
		_ = err.Error()
	}
	return err
}

// Unmarshal into things that are not non-nil pointers
func (r *run) decodeBadDst(in []byte) {
	x := 5
	for _, d := range []struct {
		n string
		v any
	}{{"nil", nil}, {"int", x}, {"nil *int", (*int)(nil)}, {"string", "s"}, {"map", map[string]int{}}, {"nil map", map[string]int(nil)}, {"struct", struct{ A int }{}},
		{"slice", []int{1, 2}}, {"nil *struct", (*RList)(nil)}, {"func", func() {}}, {"chan", make(chan int)}, {"nil *any", (*any)(nil)}, {"array", [2]int{}},
		{"nil Unmarshaler", (*UStruct)(nil)}, {"Unmarshaler value", UStruct{}}, {"float", 1.5}, {"bool", true}, {"nil error", error(nil)}, {"nil **int", (**int)(nil)}} {
		r.sub++
		id := r.callID()
		var err error
		panicked := r.guard(true, func() { err = shown(php.Unmarshal(append([]byte(nil), in...), d.v)) })
		b := []byte(fmt.Sprintf(`{"id":%d,"ctl":0,"quiet":false,"note":%q,"mem":0,"types":[],"t":0,"in":`, id, "destination "+d.n))
		b = appendBytes(b, string(in))
		b = append(b, `,"old":{"c":"n"},"new":{"c":"n"},"orig":{"c":"n"},"rt":false,"inm":false,"canon":false,"log":[],"err":`...)
		b = appendBool(b, err != nil)
		b = append(b, `,"pan":`...)
		b = appendBool(b, panicked != "")
		b = append(b, "}\n"...)
		r.dec.Write(b)
		if *verbose {
			fmt.Printf("%d destination %s\n  in %q\n  err=%v panic=%q\n", id, d.n, in, err, panicked)
		}
	}
}

func clone(v reflect.Value) reflect.Value { return deepCopy(v) }

type encCase struct {
	v     any
	ctl   int
	note  string
	quiet bool
	late  bool
}

// other calls, whose results are then written over
func (r *run) disturb(rt reflect.Type, text []byte) {
	for range 2 {
		log, n := unmarshalLog, marshalCalls
		d := reflect.New(rt)
		if php.Unmarshal(append([]byte(nil), text...), d.Interface()) == nil {
			scribble(d.Elem(), map[unsafe.Pointer]bool{})
		}
		for _, v := range []any{strings.Repeat("xyz ", 300), []any{1, "two", map[string]any{"k": []byte("bytes")}}, d.Interface()} {
			if b, err := php.Marshal(v); err == nil {
				b = append(b, "more"...)
				for i := range b {
					b[i] = '?'
				}
			}
		}
		unmarshalLog, marshalCalls = log, n
	}
}

// overwrites and extends every byte slice in v
func scribble(v reflect.Value, seen map[unsafe.Pointer]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && !seen[v.UnsafePointer()] {
			seen[v.UnsafePointer()] = true
			scribble(v.Elem(), seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Slice:
		if byteSlice(v.Type()) {
			b := v.Bytes()
			for i := range b {
				b[i] = '*'
			}
			_ = append(b, "******"...)
			return
		}
		fallthrough
	case reflect.Array:
		for i := range v.Len() {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			scribble(it.Value(), seen)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), seen)
			}
		}
	}
}

func (r *run) encode(k encCase) (id int, out []byte, ok bool) {
	r.sub++
	id = r.callID()
	t := newTypeTable()
	v := k.v
	dump := t.appendValue(nil, reflect.ValueOf(&v).Elem(), encMode)
	if r.later != nil {
		r.later = append(r.later, r.encodeLater(id, k, t, dump))
		return
	}
	var err error
	marshalCalls = 0
	panicked := r.guard(true, func() { out, err = php.Marshal(v); shown(err) })
	if k.late {
		r.disturb(reflect.TypeFor[map[string][]byte](), []byte(`a:2:{s:1:"a";s:3:"xyz";s:1:"b";s:0:"";}`))
		if v != nil {
			n := marshalCalls
			if b, err := php.Marshal(v); err == nil {
				for i := range b {
					b[i] = '?'
				}
			}
			marshalCalls = n
		}
	}
	r.recordEnc(k, id, t, dump, out, err, panicked, marshalCalls)
	return id, out, err == nil && panicked == ""
}

func (r *run) recordEnc(k encCase, id int, t *typeTable, dump, out []byte, err error, panicked string, calls int) {
	v := k.v
	b := []byte(`{"id":`)
	b = strconv.AppendInt(b, int64(id), 10)
	b = append(b, `,"ctl":`...)
	b = strconv.AppendInt(b, int64(k.ctl), 10)
	b = append(b, `,"quiet":`...)
	b = appendBool(b, k.quiet)
	b = append(b, `,"note":`...)
	b = strconv.AppendQuoteToASCII(b, k.note)
	b = append(b, `,"types":[`...)
	for i, n := range t.nodes {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, n...)
	}
	b = append(b, `],"v":`...)
	b = append(b, dump...)
	b = append(b, `,"out":`...)
	b = appendBytes(b, string(out))
	b = append(b, `,"err":`...)
	b = appendBool(b, err != nil)
	b = append(b, `,"pan":`...)
	b = appendBool(b, panicked != "")
	b = append(b, `,"calls":`...)
	b = strconv.AppendInt(b, int64(calls), 10)
	b = append(b, "}\n"...)
	r.enc.Write(b)
	if *verbose {
		fmt.Printf("%d %s %s type=%T\n  go value %+v\n  value %s\n  out %q\n  err=%v panic=%q calls=%d\n", id, r.profile, k.note, v, v, dump, out, err, panicked, calls)
	}
}

var verbose = flag.Bool("v", false, "print the calls")
var replayArg = flag.String("arg", "", "input of a replay mode")

func main() {
	profile := flag.String("profile", "", "")
	n := flag.Int("n", 100, "cases")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", ".", "output directory")
	only := flag.Int("only", -1, "run only this case")
	from := flag.Int("from", 0, "first case")
	mode := flag.String("mode", "cases", "cases, or a replay mode")
	flag.Parse()
	debug.SetMaxStack(1 << 30)
	go watchdog(*out)
	if *mode == "group" {
		os.MkdirAll(*out, 0o755)
		f, err := os.Create(filepath.Join(*out, "group.json"))
		if err != nil {
			panic(err)
		}
		w := bufio.NewWriter(f)
		if name, is := strings.CutPrefix(*replayArg, "write-"); is {
			writeWriterGroup(name, w)
		} else {
			writeGroup(*replayArg, w)
		}
		w.Flush()
		f.Close()
		os.WriteFile(filepath.Join(*out, "finished"), []byte("ok\n"), 0o644)
		return
	}
	if *mode != "cases" {
		replayMain(*mode, *replayArg, *out, *seed, *n, *from, *only)
		return
	}
	mk, ok := profiles[*profile]
	if name, is := strings.CutPrefix(*profile, "read-"); is {
		mk, ok = readerTexts(name), true
	}
	if name, is := strings.CutPrefix(*profile, "write-"); is {
		mk, ok = writerValues(name), true
	}
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown profile", *profile)
		os.Exit(2)
	}
	r := &run{out: *out, seed: *seed, profile: *profile, only: *only}
	os.MkdirAll(*out, 0o755)
	var err error
	open := func(name string) *os.File {
		var f *os.File
		if f, err = os.Create(filepath.Join(*out, name)); err != nil {
			panic(err)
		}
		return f
	}
	r.fdec, r.fenc, r.prog = open("dec.ndjson"), open("enc.ndjson"), open("progress")
	r.dec, r.enc = bufio.NewWriterSize(r.fdec, 1<<20), bufio.NewWriterSize(r.fenc, 1<<20)
	if strings.HasPrefix(*profile, "together") {
		r.later = []*lateCall{}
	}
	h := int64(0)
	for _, ch := range *profile {
		h = h*131 + int64(ch)
	}
	for i := *from; i < *from+*n; i++ {
		if *only >= 0 && i != *only {
			continue
		}
		r.gen = &gen{Rand: rand.New(rand.NewSource(*seed*1_000_003 + h*7919 + int64(i)*104729)), o: defaults()}
		r.id, r.sub, r.measure = i, 0, false
		registry = []marsh{{raw: []byte("i:0;")}}
		uintReg = []string{""}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "harness: case %d: %v\n%s", i, e, debug.Stack())
					os.Exit(3)
				}
			}()
			mk(r, i)
		}()
	}
	if r.later != nil {
		r.together()
	}
	r.dec.Flush()
	r.enc.Flush()
	r.fdec.Close()
	r.fenc.Close()
	os.WriteFile(filepath.Join(*out, "finished"), []byte("ok\n"), 0o644)
}
