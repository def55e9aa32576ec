//go:build go1.21

// Package lin is a brute-force linearizability check for a handful of calls.
package lin

// Call is one completed call with its logical start and end times.
type Call struct {
	Name       string
	Start, End int
	Result     string
}

// Check looks for a one-at-a-time order, consistent with real-time order, in
// which step (a sequential reference model over the calls' indices) produces
// every call's result; final then compares the end state.  reset restarts the model.
func Check(calls []Call, reset func(), step func(i int) string, final func() bool) bool {
	n := len(calls)
	used := make([]bool, n)
	order := make([]int, 0, n)
	var rec func() bool
	try := func() bool {
		reset()
		for _, i := range order {
			if step(i) != calls[i].Result {
				return false
			}
		}
		return len(order) < n || final == nil || final()
	}
	rec = func() bool {
		if len(order) == n {
			return true
		}
	next:
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			for j := 0; j < n; j++ {
				if !used[j] && j != i && calls[j].End < calls[i].Start {
					continue next // j finished before i began: it must come first
				}
			}
			used[i] = true
			order = append(order, i)
			if try() && rec() {
				return true
			}
			order = order[:len(order)-1]
			used[i] = false
		}
		return false
	}
	return rec()
}
