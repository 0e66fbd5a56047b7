package main

import "reflect"

// The types of a graph, each used for the first time in the given order, then
// again, on their own and within other types.
func typeGraphs(r *run, i int) {
	if i >= len(graphs) {
		return
	}
	g := graphs[i]
	r.o.pMut, r.o.pIface, r.o.pMarsh, r.o.pUnm, r.o.pBad = 0, 0, 0, 0, 0
	r.o.width = 2
	for round := range 2 {
		for _, t := range g.types {
			note := g.line
			enc, dec := r.p(.5), true
			for range 2 {
				if enc {
					v := r.value(t, 3, encMode)
					r.encode(encCase{v: v.Interface(), note: note})
					r.encode(encCase{v: reflect.Zero(t).Interface(), note: note})
				}
				if dec && !enc || enc && round == 1 {
					k := decCase{rt: t, in: []byte(r.wire(t, 3).String()), note: note}
					if round == 1 {
						k.old = r.value(t, 3, decMode)
					}
					r.decode(k)
				}
				enc = !enc
			}
			if round == 1 {
				w := r.wrapType(t)
				r.encode(encCase{v: r.value(w, 4, encMode).Interface(), note: note})
				r.decode(decCase{rt: w, in: []byte(r.wire(w, 4).String()), note: note})
			}
		}
	}
}

func (r *run) wrapType(t reflect.Type) reflect.Type {
	switch r.Intn(5) {
	case 0:
		return reflect.SliceOf(t)
	case 1:
		return reflect.MapOf(reflect.TypeFor[string](), t)
	case 2:
		return reflect.ArrayOf(2, t)
	case 3:
		return reflect.PointerTo(t)
	}
	return reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeFor[int]()}, {Name: "B", Type: t, Tag: `php:"b"`}})
}
