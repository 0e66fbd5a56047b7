package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"reflect"
	goruntime "runtime"
	"strings"

	php "github.com/trim21/go-phpserialize"
)

// ---- Runtime.tla
//
// Calls run on two goroutines which go on one at a time, as the behaviour
// says: a command to one of them gives one event, the end of a call or its
// arrival at a callback.

type rcall struct {
	kind  string
	value any           // what it encodes
	text  string        // what it decodes, or what encoding gives
	rt    reflect.Type  // what it decodes into
	want  any           // what decoding gives
	got   string        // outcome
	seen  []string      // what callbacks were given
	out   []byte        // result of encoding
	dst   reflect.Value // result of decoding
	g     int
}

type rthread struct{ cmd chan string }

type rsession struct {
	cur    *rcall // the call whose code is running
	thr    [3]rthread
	ev     chan struct{}
	calls  []*rcall
	lost   bool
	mkCall func(kind string, i int) *rcall
}

var session *rsession

var errGate = errors.New("callback fails")

// at a callback: wait for what is to happen
func (s *rsession) gate() error {
	me := s.cur
	for {
		s.ev <- struct{}{}
		c := <-s.thr[me.g].cmd
		s.cur = me
		switch c[0] {
		case 'r':
			return nil
		case 'f':
			return errGate
		case 'p':
			panic("callback panics")
		case 'n':
			s.run(me.g, c[1:])
			s.cur = me
		case 'q':
			panic("end of session")
		}
	}
}

func (s *rsession) run(g int, kind string) {
	c := s.mkCall(kind, len(s.calls))
	c.g = g
	s.calls = append(s.calls, c)
	s.cur = c
	defer func() {
		if e := recover(); e != nil {
			c.got = fmt.Sprint("panic: ", e)
			if e == "callback panics" {
				c.got = "panic"
			}
		}
	}()
	var err error
	if kind[0] == 'e' {
		c.out, err = php.Marshal(c.value)
	} else {
		c.dst = reflect.New(c.rt)
		err = php.Unmarshal([]byte(c.text), c.dst.Interface())
	}
	c.got = "ok"
	if err != nil {
		c.got = "err"
	}
}

type gateM struct{}

func (gateM) MarshalPHP() ([]byte, error) {
	if err := session.gate(); err != nil {
		return []byte("i:1;"), err
	}
	return []byte(`s:4:"gate";`), nil
}

type gateU struct{ Raw string }

func (u *gateU) UnmarshalPHP(b []byte) error {
	c := session.cur
	c.seen = append(c.seen, string(b))
	u.Raw = string(b)
	return session.gate()
}

type rShared struct {
	S    string
	M    map[string]any
	Next any
	P    *string
}

const gateText = `a:1:{s:1:"g";O:1:"G":1:{i:0;i:1;}}`

var rWarm = map[string]reflect.Type{}

// the types of a line: of its own ("fresh"), of each call ("own"), or used before ("warm")
func rType(dir byte, gates int, bad bool, mode string, line, i int) reflect.Type {
	tag := ""
	switch mode {
	case "fresh":
		tag = fmt.Sprintf("x%d", line)
	case "own":
		tag = fmt.Sprintf("x%dc%d", line, i)
	}
	key := fmt.Sprint(dir, gates, bad, tag)
	if t, ok := rWarm[key]; ok {
		return t
	}
	f := func(n string, t reflect.Type) reflect.StructField {
		return reflect.StructField{Name: n, Type: t, Tag: reflect.StructTag(fmt.Sprintf("php:%q", strings.ToLower(n)+tag))}
	}
	fs := []reflect.StructField{f("A", reflect.TypeFor[string]()), f("B", reflect.TypeFor[map[string]any]())}
	for k := range gates {
		if dir == 'e' {
			fs = append(fs, f(fmt.Sprintf("G%d", k), reflect.TypeFor[gateM]()))
		} else {
			fs = append(fs, f(fmt.Sprintf("G%d", k), reflect.TypeFor[gateU]()))
		}
	}
	fs = append(fs, f("C", reflect.TypeFor[[]string]()), f("D", reflect.TypeFor[*rShared]()))
	if dir == 'e' {
		fs = append(fs, f("X", reflect.TypeFor[any]()))
	} else {
		fs = append(fs, f("X", reflect.TypeFor[int8]()))
	}
	t := reflect.StructOf(fs)
	if mode == "warm" {
		rWarm[key] = t
	} else if mode == "fresh" {
		rWarm = map[string]reflect.Type{key: t}
	}
	return t
}

func replayRuntime(r *replayer, line string) {
	goruntime.GOMAXPROCS(1)
	fields := strings.Fields(line)
	ops := strings.Split(fields[1], ",")[1:]
	wants := strings.Split(fields[2], "/")[1:]
	h := int(crc32.ChecksumIEEE([]byte(line)))
	mode := []string{"fresh", "own", "warm"}[h%3]
	sharing := h / 3 % 2
	hold := h / 6 % 4
	str := func(i int, p string) string {
		return fmt.Sprintf("%s%d%s", p, i, strings.Repeat(string(rune('a'+(h/16+i)%26)), 3+(h/32+i*37)%90))
	}
	ps := "pointee"
	common := &rShared{S: "shared", P: &ps, M: map[string]any{"k": []any{1, "x"}}}
	const commonText = `a:4:{s:1:"S";s:6:"shared";s:1:"M";a:1:{s:1:"k";a:2:{i:0;i:1;i:1;s:1:"x";}}s:4:"Next";N;s:1:"P";s:7:"pointee";}`
	shared := map[string]any{}
	s := &rsession{ev: make(chan struct{})}
	session = s
	s.mkCall = func(kind string, i int) *rcall {
		gates := int(kind[1] - '0')
		bad := kind[1] == '3' || kind[1] == 'x'
		switch kind[1] {
		case '3':
			gates = 1
		case 'x':
			gates = 0
		}
		rt := rType(kind[0], gates, bad, mode, r.id, i)
		name := func(n string) string {
			f, _ := rt.FieldByName(n)
			return f.Tag.Get("php")
		}
		c := &rcall{kind: kind, rt: rt}
		if sharing == 1 {
			i = 0
		}
		a, b := str(i, "first"), str(i, "second")
		n := 5 + gates
		text := fmt.Sprintf(`a:%d:{%s%s%sa:1:{s:1:"m";%s}`, n, str_(name("A")), str_(a), str_(name("B")), str_(b))
		v := reflect.New(rt)
		e := v.Elem()
		e.FieldByName("A").SetString(a)
		m := map[string]any{"m": b}
		e.FieldByName("C").Set(reflect.ValueOf([]string{b, a}))
		e.FieldByName("D").Set(reflect.ValueOf(common))
		for k := range gates {
			text += str_(name(fmt.Sprintf("G%d", k)))
			if kind[0] == 'e' {
				text += `s:4:"gate";`
			} else {
				text += gateText
				e.FieldByName(fmt.Sprintf("G%d", k)).Set(reflect.ValueOf(gateU{gateText}))
			}
		}
		text += str_(name("C")) + `a:2:{i:0;` + str_(b) + `i:1;` + str_(a) + `}` + str_(name("D")) + commonText + str_(name("X"))
		if kind[0] == 'e' {
			e.FieldByName("B").Set(reflect.ValueOf(m))
			if bad {
				e.FieldByName("X").Set(reflect.ValueOf(make(chan int)))
			}
			text += "N;}"
		} else {
			e.FieldByName("B").Set(reflect.ValueOf(m))
			d := *common
			d.M = map[string]any{"k": map[any]any{int64(0): int64(1), int64(1): "x"}}
			e.FieldByName("D").Set(reflect.ValueOf(&d))
			if bad {
				text += "i:300;}"
			} else {
				text += "i:-7;}"
				e.FieldByName("X").SetInt(-7)
			}
		}
		c.text = text
		if kind[0] == 'd' {
			c.want = v.Interface()
			return c
		}
		// the same value may be encoded by several calls at once
		hv := v.Interface()
		if old, ok := shared[kind]; ok && sharing == 1 && mode != "own" {
			hv = old
		} else {
			shared[kind] = hv
		}
		c.value = hv
		switch hold {
		case 1:
			c.value = e.Interface()
		case 2:
			c.value = []any{hv, common}
			c.text = "a:2:{i:0;" + text + "i:1;" + commonText + "}"
		case 3:
			o := &rShared{S: "outer", Next: map[string]any{"n": hv}}
			c.value = o
			c.text = `a:4:{s:1:"S";s:5:"outer";s:1:"M";N;s:4:"Next";a:1:{s:1:"n";` + text + `}s:1:"P";N;}`
		}
		return c
	}
	for g := 1; g <= 2; g++ {
		s.thr[g].cmd = make(chan string)
		go func() {
			for c := range s.thr[g].cmd {
				if c[0] == 's' {
					s.run(g, c[1:])
				} else {
					s.lost = true // the call has ended already
				}
				s.ev <- struct{}{}
			}
		}()
	}
	r.call(func() {
		for _, op := range ops {
			g := int(op[1] - '0')
			r.calls++
			c := op[:1]
			if i := strings.IndexByte(op, ':'); i > 0 {
				c += op[i+1:]
			}
			s.thr[g].cmd <- c
			<-s.ev
		}
	})
	if s.lost {
		r.report(fields[1], "a call ended before its callbacks", "a callback")
	}
	// the calls that should have ended have
	for i, c := range s.calls {
		if i >= len(wants) {
			break
		}
		id := fmt.Sprintf("call %d (%s) of %s", i+1, c.kind, fields[1])
		if c.got != wants[i] {
			if c.got == "err" && wants[i] == "panic" {
				continue
			}
			r.report(id, c.got, wants[i])
			continue
		}
		for _, b := range c.seen {
			if b != gateText {
				r.report(id+" callback", b, gateText)
			}
		}
		switch {
		case c.kind[0] == 'e' && wants[i] == "ok" && string(c.out) != c.text:
			r.report(id, string(c.out), c.text)
		case c.kind[0] == 'e' && wants[i] == "err" && c.out != nil:
			r.report(id+" output", string(c.out), "none")
		case c.kind[0] == 'd' && wants[i] == "ok" && !reflect.DeepEqual(c.dst.Interface(), c.want):
			r.report(id, fmt.Sprintf("%+v", c.dst.Elem()), fmt.Sprintf("%+v", reflect.ValueOf(c.want).Elem()))
		}
	}
	for g := 1; g <= 2; g++ {
		close(s.thr[g].cmd)
	}
	// a call afterwards, of what they shared
	if out, err, p := r.marshal(common); out != commonText {
		r.report("afterwards", outcome(out, err, p), commonText)
	}
	var back rShared
	if err, p := r.unmarshal(commonText, &back); err != nil || p != "" || back.S != "shared" || back.P == nil || *back.P != ps {
		r.report("afterwards", fmt.Sprint(back, err, p), commonText)
	}
}
