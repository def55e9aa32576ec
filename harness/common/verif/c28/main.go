//go:build go1.21

// C28: shared random generators under every interleaving, and every short
// history of draws and reseeds, for every small output length.
package main

import (
	"fmt"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// windows of every draw ever made by this process: no run of 12 bytes at a
// 4-aligned place may come twice
var seen = map[string]string{}

func record(b []byte, what string) string {
	for i := 0; i+12 <= len(b); i += 4 {
		k := string(b[i : i+12])
		if w, ok := seen[k]; ok {
			return fmt.Sprintf("bytes %d-%d of %s repeat %s", i, i+11, what, w)
		}
		seen[k] = fmt.Sprintf("bytes %d-%d of %s", i, i+11, what)
	}
	if len(seen) > 3_000_000 {
		seen = map[string]string{}
	}
	return ""
}

type op struct {
	kind string // read, bytes (through GetReader), reseed, kick, poolkick, public, private, new, cid, node
	n    int
}

func (o op) String() string { return fmt.Sprintf("%s(%d)", o.kind, o.n) }

// do draws into b when the operation draws
func do(r fcrcrypto.Random, o op, b []byte) []byte {
	switch o.kind {
	case "read":
		r.ReadBytes(b[:o.n])
		return b[:o.n]
	case "bytes":
		n, err := r.GetReader().Read(b[:o.n])
		if n != o.n || err != nil {
			panic(fmt.Sprint("reader returned ", n, " ", err))
		}
		return b[:o.n]
	case "reseed":
		r.Reseed(seed[:o.n])
	case "kick":
		r.QuickReseedKick()
	case "poolkick":
		fcrcrypto.PRNGEntropyKick()
	case "public":
		fcrcrypto.GeneratePublicRandomBytes(b[:o.n])
		return b[:o.n]
	case "private":
		fcrcrypto.GeneratePrivateRandomBytes(b[:o.n])
		return b[:o.n]
	case "new":
		fcrcrypto.NewPrivatePRNG(domain).ReadBytes(b[:o.n])
		return b[:o.n]
	case "cid":
		return append(b[:0], cid.NewRandomContentID().ToBytes()...)
	case "node":
		return append(b[:0], nodeid.NewRandomNodeID().ToBytes()...)
	}
	return nil
}

var seed = make([]byte, 64)
var domain = []byte("same")

func sequential(t *vh.T) {
	// every length: all of it filled, nothing beyond it
	max := t.Pick(200, 1100)
	for n := 0; n <= max; n++ {
		if !t.Mine(n) {
			continue
		}
		for _, kind := range []string{"read", "bytes", "public", "private"} {
			o := op{kind, n}
			t.Case(o.String)
			r := fcrcrypto.NewPRNG([]byte("len"))
			changed := make([]bool, n)
			b := make([]byte, n+40)
			t.Try("draw", o.String(), func() {
				for k := 0; k < 40; k++ {
					for i := range b {
						b[i] = 0xa5
					}
					do(r, o, b)
					for i := 0; i < n; i++ {
						changed[i] = changed[i] || b[i] != 0xa5
					}
					for i := n; i < len(b); i++ {
						if b[i] != 0xa5 {
							t.Violate("overrun", fmt.Sprintf("%v wrote byte %d", o, i), o.String())
						}
					}
					if s := record(b[:n], fmt.Sprintf("draw %d of %v", k, o)); s != "" {
						t.Violate("repeat", s, o.String())
					}
				}
				for i := range changed {
					if !changed[i] {
						t.Violate("not-filled", fmt.Sprintf("%v never filled byte %d in 40 draws", o, i), o.String())
					}
				}
			})
			t.Eval()
			t.Distinct(o.String())
		}
	}
	// every history of draws and reseeds
	alphabet := []op{{"read", 1}, {"read", 32}, {"bytes", 33}, {"read", 64}, {"reseed", 0}, {"reseed", 32}, {"kick", 0}, {"poolkick", 0}, {"public", 32}, {"private", 32}, {"cid", 0}, {"node", 0}}
	depth := t.Pick(4, 5)
	n := 0
	var rec func(l []op)
	rec = func(l []op) {
		if len(l) == depth {
			n++
			if !t.Mine(n / 16) {
				return
			}
			h := fmt.Sprint(l)
			t.Case(func() string { return h })
			t.Try("history", h, func() {
				// two generators made alike must differ, too
				rs := []fcrcrypto.Random{fcrcrypto.NewPRNG(domain), fcrcrypto.NewPRNG(domain)}
				for k, o := range l {
					for g, r := range rs {
						var b [80]byte
						if s := record(do(r, o, b[:]), fmt.Sprintf("step %d (%v) on generator %d of %s", k, o, g, h)); s != "" {
							t.Violate("repeat", s, h)
						}
						t.Transition()
					}
				}
			})
			t.Eval()
			t.Distinct(h)
			return
		}
		for _, o := range alphabet {
			rec(append(l[:len(l):len(l)], o))
		}
	}
	rec(nil)
	t.Sample(map[string]interface{}{"history depth": depth, "operations": len(alphabet), "histories": n, "lengths": max + 1})
}

type scenario struct {
	name  string
	th    [][]op
	bound [2]int
	execs int
}

func concurrent(t *vh.T, sc scenario) {
	max := 400000
	if sc.execs > 0 {
		max = sc.execs
	}
	t.Explore(vsched.Config{Name: sc.name, MaxPreempt: sc.bound[t.Pick(0, 1)], MaxExecs: max}, func(x *vsched.X) {
		r := fcrcrypto.NewPRNG(domain)
		var bufs [8][4][80]byte
		var got [8][4][]byte
		for i, th := range sc.th {
			i, th := i, th
			x.Go([]string{"t0", "t1", "t2"}[i], func() {
				for j, o := range th {
					got[i][j] = do(r, o, bufs[i][j][:])
				}
			})
		}
		x.Join()
		var after [80]byte
		all := [][]byte{do(r, op{"read", 64}, after[:])}
		for i := range sc.th {
			for j := range sc.th[i] {
				all = append(all, got[i][j])
			}
		}
		for i, b := range all {
			if s := record(b, fmt.Sprintf("draw %d of %s %v", i, sc.name, sc.th)); s != "" {
				x.Fail("repeat", "%s", s)
			}
			if len(b) >= 16 && strings.Trim(string(b), "\x00") == "" {
				x.Fail("not-filled", "draw %d of %v was not filled", i, sc.th)
			}
		}
		x.Outcome("distinct")
	})
}

func main() {
	vh.Main(func(t *vh.T) {
		fcrcrypto.GetPublicPRNG()
		fcrcrypto.GetPrivatePRNG()
		sequential(t)
		o := func(l ...op) []op { return l }
		rd := func(n int) op { return op{"read", n} }
		scs := []scenario{
			{"draw-draw", [][]op{o(rd(64), rd(33)), o(rd(64), rd(32))}, [2]int{5, 8}, 0},
			{"draw-three", [][]op{o(rd(64)), o(rd(33)), o(rd(31))}, [2]int{5, 8}, 0},
			{"draw-reseed", [][]op{o(rd(64), rd(32)), o(op{"reseed", 32}, rd(32))}, [2]int{5, 8}, 0},
			{"draw-reseed-kick", [][]op{o(rd(64)), o(op{"reseed", 16}), o(op{"kick", 0}, rd(20))}, [2]int{4, 6}, 0},
			{"reader-draw", [][]op{o(op{"bytes", 64}, op{"bytes", 5}), o(rd(64), op{"bytes", 32})}, [2]int{5, 8}, 0},
			{"public-public", [][]op{o(op{"public", 32}, op{"cid", 0}), o(op{"public", 33}, op{"node", 0})}, [2]int{4, 6}, 0},
			{"private-poolkick", [][]op{o(op{"private", 32}), o(op{"poolkick", 0}), o(op{"public", 32})}, [2]int{3, 5}, 0},
			{"ids", [][]op{o(op{"node", 0}, op{"cid", 0}), o(op{"node", 0}), o(op{"cid", 0})}, [2]int{3, 4}, 0},
			{"make-make", [][]op{o(op{"new", 32}), o(op{"new", 32})}, [2]int{3, 4}, 0},
			{"make-kick", [][]op{o(op{"new", 32}), o(op{"poolkick", 0})}, [2]int{1, 1}, 0},
		}
		for i, sc := range scs {
			if t.Mine(i) {
				concurrent(t, sc)
			}
		}
		t.Assume("chance repetition of 12 random bytes (probability below 2^-50 over all draws) is neglected")
	})
}
