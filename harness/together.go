package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"

	php "github.com/trim21/go-phpserialize"
)

// Calls made by several goroutines at once, in a process that has not called
// the library before; what each gives is recorded and judged like any call.

const copies = 3 // of a call, on as many goroutines

type lateCall struct {
	run    [copies]func()
	record func()
}

func together(r *run, i int) {
	r.o.pIface, r.o.pMarsh, r.o.pUnm = 0, 0, 0
	r.o.pRec = .2
	if i%3 == 0 { // numbers written as strings
		r.o.pStrOpt = .5
	}
	if i%5 == 0 { // calls that fail
		r.o.pBad, r.o.pMut, r.o.pWrong = .1, .5, .2
	}
	if i%2 == 0 {
		t := r.typ(r.o.maxDepth, false)
		if i%6 == 2 {
			t = r.wide()
		}
		for range 2 {
			r.encode(encCase{v: r.value(t, 4, encMode).Interface()})
		}
		return
	}
	if i%5 != 0 {
		r.clean()
		r.o.pIface, r.o.pUnm = 0, 0
	}
	t := r.typ(r.o.maxDepth, true)
	if i%6 == 1 {
		t = r.wide()
	}
	for range 2 {
		k := decCase{rt: t}
		s := r.wire(t, r.o.maxDepth).String()
		if r.p(r.o.pMut) {
			s = r.mutate(s)
		}
		k.in = []byte(s)
		if r.p(r.o.pOld) {
			k.old = r.value(t, 4, decMode)
		}
		r.decode(k)
	}
}

// a struct with a field of most kinds
func (r *run) wide() reflect.Type {
	var fs []reflect.StructField
	for _, t := range []reflect.Type{reflect.TypeFor[bool](), reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int64](), reflect.TypeFor[uint](), reflect.TypeFor[uint16](),
		reflect.TypeFor[float32](), reflect.TypeFor[float64](), reflect.TypeFor[string](), reflect.TypeFor[[]byte](), reflect.TypeFor[any](), reflect.TypeFor[[]string](),
		reflect.TypeFor[[3]int](), reflect.TypeFor[map[string]int](), reflect.TypeFor[map[int]string](), reflect.TypeFor[map[any]any](), reflect.TypeFor[[]any](), reflect.TypeFor[[2]byte]()} {
		if r.p(.4) {
			continue
		}
		tag := fmt.Sprint("t", len(fs))
		if r.p(.3) {
			tag += ",omitempty"
		}
		if stringOptOK(t) && r.p(.6) {
			tag += ",string"
		}
		if r.p(.2) {
			t = reflect.PointerTo(t)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", len(fs)), Type: t, Tag: quoteTag(tag)})
	}
	t := reflect.StructOf(fs)
	switch r.Intn(6) {
	case 0:
		return reflect.SliceOf(t)
	case 1:
		return reflect.MapOf(reflect.TypeFor[string](), t)
	case 2:
		return reflect.PointerTo(t)
	}
	return t
}

func caught(f func()) (panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

const (
	rounds   = 8 // of a call, by each goroutine, one after another
	outcomes = 9 // different outcomes of a call that are recorded
)

func (r *run) encodeLater(id int, k encCase, t *typeTable, dump []byte) *lateCall {
	type outcome struct {
		out []byte
		err error
		pan string
	}
	var outs [copies][rounds]outcome
	c := &lateCall{}
	for j := range copies {
		c.run[j] = func() {
			for i := range rounds {
				o := &outs[j][i]
				o.pan = caught(func() { o.out, o.err = php.Marshal(k.v) })
			}
		}
	}
	c.record = func() {
		seen := map[string]bool{}
		for i := range rounds {
			for j := range copies {
				o := outs[j][i]
				key := fmt.Sprintf("%q %v %s", o.out, o.err != nil, o.pan)
				if n := len(seen); n < outcomes && !seen[key] {
					seen[key] = true
					r.recordEnc(k, id+100*n, t, dump, o.out, o.err, o.pan, 0)
				}
			}
		}
	}
	return c
}

func (r *run) decodeLater(id int, k decCase) *lateCall {
	type outcome struct {
		dst reflect.Value
		t   *typeTable
		ti  int
		old []byte
		err error
		pan string
	}
	var outs [copies][rounds]outcome
	in := append([]byte(nil), k.in...)
	fresh := func() reflect.Value {
		dst := reflect.New(k.rt)
		if k.old.IsValid() {
			dst.Elem().Set(clone(k.old))
		}
		return dst
	}
	c := &lateCall{}
	for j := range copies {
		for i := range rounds {
			o := &outs[j][i]
			o.dst, o.t = fresh(), newTypeTable()
			o.ti = o.t.add(k.rt)
			o.t.old = true
			o.old = o.t.appendValue(nil, o.dst.Elem(), decMode)
			o.t.old = false
		}
		c.run[j] = func() {
			for i := range rounds {
				o := &outs[j][i]
				o.pan = caught(func() { o.err = php.Unmarshal(in, o.dst.Interface()) })
			}
		}
	}
	c.record = func() {
		seen := map[string]bool{}
		for i := range rounds {
			for j := range copies {
				o := outs[j][i]
				key := o.pan
				if o.err != nil {
					key = "error " + key
				} else if key == "" {
					key = string(o.t.appendValue(nil, o.dst.Elem(), decMode))
				}
				if n := len(seen); n < outcomes && !seen[key] {
					seen[key] = true
					r.recordDec(k, id+100*n, o.t, o.ti, o.dst, o.old, o.err, o.pan, 0, string(in) != string(k.in), nil)
				}
			}
		}
	}
	return c
}

func (r *run) together() {
	runtime.GOMAXPROCS(8)
	var all []func()
	for _, c := range r.later {
		for j := range copies {
			all = append(all, c.run[j])
		}
	}
	// groups of calls start together: copies of a call, and calls of a type
	const width = 12
	for a := 0; a < len(all); a += width {
		var wg, ready sync.WaitGroup
		start := make(chan struct{})
		for _, f := range all[a:min(a+width, len(all))] {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				f()
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
	}
	for _, c := range r.later {
		c.record()
	}
}
