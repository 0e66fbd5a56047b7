package main

import (
	"reflect"
	"strconv"

	php "github.com/trim21/go-phpserialize"
)

// Long strings in every place that can have one.

var hugeSizes = []int{2047, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 9999, 10000, 16383, 16385, 20000, 32766, 32767, 32768, 33000, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 131071, 131072, 132000}

func (r *run) hugeString() string {
	if r.p(.4) {
		return r.bigString(65536 + pick(r.gen, []int{0, 1, 10, 300, 5000}))
	}
	return r.bigString(pick(r.gen, hugeSizes))
}

func hugeEncode(r *run, place int) {
	s := r.hugeString()
	t := "small"
	m := php.Marshaler(MStr("ab"))
	registry = append(registry, marsh{}, marsh{raw: []byte(wS(s).String())})
	registry[2] = registry[len(registry)-1]
	places := []func() any{
		func() any { return s },
		func() any { return []byte(s) },
		func() any { return NStr(s) },
		func() any { return NBytes(s)[:min(len(s), 300)] },
		func() any { return &s },
		func() any { return []any{s, t} },
		func() any { return map[string]any{"k": []byte(s)} },
		func() any { return map[string]int{s: 1} },
		func() any { return map[int]string{1: s} },
		func() any { return []any{map[string]string{s: t}} },
		func() any { return [2]string{t, s} },
		func() any { return []*string{&t, &s, nil} },
		func() any { return [][]byte{[]byte(s), nil, []byte(t)} },
		func() any {
			return struct {
				A string  `php:"a,omitempty"`
				B []byte  `php:"b"`
				C *string `php:"c"`
			}{t, []byte(s), &t}
		},
		func() any {
			return struct {
				A string  `php:"a,string"`
				C *string `php:"c,string"`
				D any     `php:"d,string"`
			}{s, &t, t}
		},
		func() any { return m },
		func() any { return []any{t, m, t} },
		func() any { return map[string]php.Marshaler{"a": m} },
		func() any {
			return struct {
				A MStr
				B string
			}{"ab", t}
		},
	}
	r.encode(encCase{note: "long", v: places[place%len(places)]()})
}

func hugeDecode(r *run, place int) {
	s := r.hugeString()
	n := len(s)
	if r.p(.35) { // a wrong length
		n = max(0, pick(r.gen, []int{n - 1, n + 1, n - 65536, n % 65536, n + 65536, n - 2, n % 256, n % 4096}))
	}
	str := "s:" + strconv.Itoa(n) + `:"` + s + `";`
	obj := "O:" + strconv.Itoa(n) + `:"` + s + `":1:{s:1:"a";i:5;}`
	type inner struct {
		A any `php:"a"`
		B string
	}
	in := func(t reflect.Type, s string) {
		k := decCase{rt: t, in: []byte(s), note: "long"}
		if r.p(.3) {
			k.old = r.value(t, 2, decMode)
		}
		r.decode(k)
	}
	switch place % 18 {
	case 0:
		in(reflect.TypeFor[string](), str)
	case 1:
		in(reflect.TypeFor[[]byte](), str)
	case 2:
		in(reflect.TypeFor[any](), str)
	case 3:
		in(reflect.TypeFor[*string](), str)
	case 4:
		in(reflect.TypeFor[map[string]int](), "a:1:{"+str+"i:5;}")
	case 5:
		in(reflect.TypeFor[any](), "a:1:{"+str+str+"}")
	case 6:
		in(reflect.TypeFor[map[string]string](), `a:2:{s:1:"a";`+str+`s:1:"b";s:1:"x";}`)
	case 7:
		in(reflect.TypeFor[inner](), `a:2:{s:1:"a";`+str+`s:1:"B";s:1:"x";}`)
	case 8, 9: // skipped
		in(reflect.TypeFor[inner](), `a:3:{s:2:"?a";`+str+`s:1:"B";s:1:"x";`+str+`i:5;}`)
	case 10:
		in(reflect.TypeFor[[1]string](), `a:2:{i:5;`+str+`i:0;s:1:"x";}`)
	case 11:
		in(reflect.TypeFor[UStruct](), str)
	case 12:
		in(reflect.TypeFor[map[string]UStruct](), `a:2:{s:1:"a";`+str+`s:1:"b";i:5;}`)
	case 13:
		in(reflect.TypeFor[inner](), obj)
	case 14:
		in(reflect.TypeFor[map[string]int](), obj)
	case 15:
		in(reflect.TypeFor[any](), obj)
	case 16:
		in(reflect.TypeFor[UStruct](), obj)
	default:
		in(reflect.TypeFor[inner](), `a:2:{s:2:"?a";`+obj+`s:1:"B";s:1:"x";}`)
	}
}

// every so often in a profile
func withHuge(every int, huge func(*run, int), f func(r *run, i int)) func(r *run, i int) {
	return func(r *run, i int) {
		if i%every == every/2 {
			huge(r, i/every)
			return
		}
		f(r, i)
	}
}
