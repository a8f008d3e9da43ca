package main

// backend replaces the Go library under the recorder (build tag cref: the C
// reference).
type backend interface {
	need(name string)
	mem(name string) []byte
	observe(name string) []string
	exec(st Step, in []byte, ev *Event)
}

var newBackend func() backend
