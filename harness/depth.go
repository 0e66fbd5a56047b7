package main

import (
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
)

// ---- Depth.tla

type (
	dN struct {
		L []dN
		M map[string]dN
		A [1]*dN
		P *dN
		I any
		U UStruct
		W *UStruct
		B []any
		E []UStruct
		G map[string]UStruct
		K [1]UStruct
		H php.Unmarshaler
		Z map[any]any
		D []byte
	}
	dT [1]*dT
)

type dFrame struct {
	w   *W
	ctx string
}

func (f dFrame) add(field string, v *W) {
	n := strconv.Itoa(len(f.w.E))
	var k *W
	switch {
	case field != "":
		k = wS(field)
	case f.ctx == "S":
		k = wI(n)
	case f.ctx == "T":
		k = wI("0")
	case f.ctx == "skip", f.ctx == "um":
		if k = wI(n); len(f.w.E)%2 == 1 {
			k = wS(n)
		}
	default:
		k = wS(n)
	}
	f.w.E = append(f.w.E, WE{k, v})
}

func wO() *W { return &W{K: 'O', Cls: "Cl", Cnt: -1} }

// one move from frame f; the containers it opens, outermost first
func depthMove(f dFrame, m byte) dFrame {
	in := func(field string, w *W, ctx string) dFrame {
		f.add(field, w)
		return dFrame{w, ctx}
	}
	two := func(field string, outer *W, key *W, ctx string) dFrame {
		w := wA()
		outer.E = append(outer.E, WE{key, w})
		f.add(field, outer)
		return dFrame{w, ctx}
	}
	switch m {
	case 'L':
		return two("L", wA(), wI("0"), "N")
	case 'M':
		return two("M", wA(), wS("k"), "N")
	case 'F':
		return two("M", wO(), wS("k"), "N")
	case 'A':
		return two("A", wA(), wI("0"), "N")
	case 'X':
		return two("A", wA(), wI("7"), "skip")
	case 'P':
		return in("P", wA(), "N")
	case 'O':
		return in("P", wO(), "N")
	case 'I':
		return in("I", wA(), "any")
	case 'J':
		return in("I", wO(), "any")
	case 'B':
		return two("B", wA(), wI("0"), "any")
	case 'Q':
		return in("unknown", wA(), "skip")
	case 'R':
		return in("unknown", wO(), "skip")
	case 'U':
		return in("U", wA(), "um")
	case 'V':
		return in("U", wO(), "um")
	case 'W':
		return in("W", wA(), "um")
	case 'E':
		return two("E", wA(), wI("0"), "um")
	case 'G':
		return two("G", wO(), wS("k"), "um")
	case 'K':
		return two("K", wA(), wI("0"), "um")
	case 'H':
		return in("H", wA(), "um")
	case 'Z':
		return in("Z", wA(), "any")
	case 'D':
		w := wA()
		w.E = append(w.E, WE{wI("0"), wI("7")})
		f.add("D", w)
		return dFrame{w, "end"}
	case 'o', 'p', 'v', 'n':
		return in("", wO(), f.ctx)
	}
	return in("", wA(), f.ctx)
}

func depthText(ops []string) (root, text string) {
	root = ops[0]
	top := dFrame{wA(), root}
	runs := []dFrame{top}
	for _, op := range ops[1:] {
		cur := runs[len(runs)-1]
		switch op[0] {
		case ')':
			runs = runs[:len(runs)-1]
			continue
		case '+':
			n, _ := strconv.Atoi(op[1:])
			field := ""
			if cur.ctx == "N" {
				field = siblingFields[hash(ops)%len(siblingFields)]
			}
			for range n {
				cur.add(field, wA())
			}
			continue
		}
		n, _ := strconv.Atoi(op[1:])
		for range n {
			cur = depthMove(cur, op[0])
		}
		runs = append(runs, cur)
	}
	return root, top.w.String()
}

func replayDepth(r *replayer, line string) {
	f := strings.Fields(line) // D root op... result
	want := f[len(f)-1]
	root, text := depthText(f[1 : len(f)-1])
	var dst any
	switch root {
	case "N":
		dst = &dN{H: &UStruct{}}
	case "S":
		dst = new(gS)
	case "M":
		dst = new(gM)
	case "T":
		dst = new(dT)
	case "any":
		dst = new(any)
	default:
		dst = new(UStruct)
	}
	unmarshalLog = nil
	err, panicked := r.unmarshal(text, dst)
	got := "ok"
	if panicked != "" {
		got = panicked
	} else if err != nil {
		got = "deep"
	}
	if got != want {
		if err != nil {
			got += ": " + err.Error()
		}
		r.report("depth "+line, got, want)
		return
	}
	if u, ok := dst.(*UStruct); ok && want == "ok" && (string(u.Raw) != text || len(unmarshalLog) != 1) {
		r.report("depth "+line, "Unmarshaler got something else", "the whole text")
	}
}

var siblingFields = []string{"P", "L", "M", "I", "unknown", "U", "A", "B", "E"}

func hash(ops []string) int {
	h := uint32(7)
	for _, o := range ops {
		for _, c := range []byte(o) {
			h = h*31 + uint32(c)
		}
	}
	return int(h >> 8 & 0xffff)
}
