package main

import (
	"reflect"
	"verifhook"
)

// The package-level variables of the repository's packages belong to one
// simulated process at a time: every process has its own values, initialised
// when it starts and exchanged when another process gets to run.

func (w *World) own(inc *Inc) {
	if inc == w.owner || inc.kind != "node" && inc.kind != "client" || len(verifhook.Globals) == 0 {
		return
	}
	if w.owner != nil {
		w.owner.globals = grabGlobals(w.owner.globals)
	}
	w.owner = inc
	if inc.globals != nil {
		putGlobals(inc.globals)
		return
	}
	for _, g := range verifhook.Globals {
		// Clients only use the client library.
		if inc.kind == "node" || g.Pkg == "." {
			g.Init()
		}
	}
}

func grabGlobals(old []reflect.Value) []reflect.Value {
	out := old[:0]
	for _, g := range verifhook.Globals {
		for _, p := range g.Ptrs {
			v := reflect.ValueOf(p).Elem()
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			out = append(out, c)
		}
	}
	return out
}

func putGlobals(vs []reflect.Value) {
	i := 0
	for _, g := range verifhook.Globals {
		for _, p := range g.Ptrs {
			reflect.ValueOf(p).Elem().Set(vs[i])
			i++
		}
	}
}
