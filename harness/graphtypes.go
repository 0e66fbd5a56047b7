package main

import "reflect"

// Types of the graphs spec/TypeGraph.tla enumerates; the check replaces this
// file by one it writes.

type graph struct {
	line  string
	types []reflect.Type // in the order they are used
	ok    []bool         // every part is supported
}

var graphs []graph
