//go:build go1.21

// Package vhist walks all histories of operations on one object.
package vhist

import (
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// Op is an operation: it acts on the object and says in what it went wrong, if it did.
type Op struct {
	Name string
	Do   func() (key, wrong string)
}

// Walk runs every sequence of up to depth operations on a fresh object each (fresh makes it and gives the operations,
// in the same order each time; every operation judges by what came before).  The last operation may be any, so every
// prefix is judged too.
func Walk(t *vh.T, what string, depth int, fresh func() []Op) {
	n := len(fresh())
	t.Count("operations of "+what, n)
	seq := make([]int, depth)
	k := 0
	for {
		k++
		if t.Mine(k) {
			run(t, what, seq, fresh())
			if t.Over() {
				t.NotExhaustive("deadline")
				return
			}
		}
		i := depth - 1
		for i >= 0 && seq[i] == n-1 {
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		seq[i]++
	}
}

func run(t *vh.T, what string, seq []int, ops []Op) {
	var names []string
	name := func() string { return what + ": " + strings.Join(names, ", ") }
	t.Case(name)
	t.Eval()
	t.Try("crash", what, func() {
		for _, i := range seq {
			names = append(names, ops[i].Name)
			if key, wrong := ops[i].Do(); wrong != "" {
				d := name() + ": " + wrong
				t.Violate(key, d, d)
				return
			}
		}
		t.Distinct(name())
	})
}
