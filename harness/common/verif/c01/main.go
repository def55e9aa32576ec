//go:build go1.21

// C01: the DHT ring agrees with a sorted cyclic set on every operation sequence.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/dhtring"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func id(prefix string, fill byte) string {
	return prefix + strings.Repeat(string(fill), 64-len(prefix))
}

// Ring positions: both ends of the number range, neighbours differing by one,
// equidistant pairs (ties), a point diametrically opposite to zero.
var universe = []string{
	id("40", '0'), id("ff", 'f'), id("", '0'), id("80", '0'), id("20", '0'), id("a1b2c3", '7'), id("", '0')[:63] + "1", id("c0", '0'),
}

// query points: members plus points that are never inserted
var extra = []string{id("10", '0'), id("", '0')[:63] + "2", id("9f", 'e'), id("ff", 'f')[:63] + "e"}

var modulus = new(big.Int).Lsh(big.NewInt(1), 256)

func num(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

var nums = map[string]*big.Int{}

func n(s string) *big.Int {
	if v, ok := nums[s]; ok {
		return v
	}
	v := num(s)
	nums[s] = v
	return v
}

var cwMemo = map[[2]string]*big.Int{}

func cw(from, to string) *big.Int {
	if v, ok := cwMemo[[2]string{from, to}]; ok {
		return v
	}
	v := cwRaw(from, to)
	cwMemo[[2]string{from, to}] = v
	return v
}

func cwRaw(from, to string) *big.Int {
	d := new(big.Int).Sub(n(to), n(from))
	if d.Sign() < 0 {
		d.Add(d, modulus)
	}
	return d
}

func ringDist(a, b string) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

type model map[string]bool

func (m model) sorted() []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// closest: the k members nearest on the ring (ties to the counter-clockwise one),
// listed clockwise along the arc around hex.
func (m model) closest(hex string, k int, excl string) []string {
	var s []string
	for _, x := range m.sorted() {
		if x != excl {
			s = append(s, x)
		}
	}
	if k > len(s) {
		k = len(s)
	}
	sort.SliceStable(s, func(i, j int) bool {
		c := ringDist(hex, s[i]).Cmp(ringDist(hex, s[j]))
		if c != 0 {
			return c < 0
		}
		// tie: counter-clockwise side first
		return cw(s[i], hex).Cmp(cw(hex, s[i])) < 0
	})
	s = s[:k]
	// clockwise arc order: counter-clockwise members by decreasing distance, then hex, then clockwise ones
	sort.SliceStable(s, func(i, j int) bool { return arcPos(hex, s[i]).Cmp(arcPos(hex, s[j])) < 0 })
	return s
}

func arcPos(hex, x string) *big.Int {
	c, cc := cw(hex, x), cw(x, hex)
	if cc.Cmp(c) <= 0 {
		return new(big.Int).Neg(cc)
	}
	return c
}

func (m model) within(a, b string) []string {
	var r []string
	for _, x := range m.sorted() {
		if cw(a, x).Cmp(cw(a, b)) <= 0 {
			r = append(r, x)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return cw(a, r[i]).Cmp(cw(a, r[j])) < 0 })
	return r
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rotEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 0 {
		return true
	}
	for s := range a {
		ok := true
		for i := range a {
			if a[(i+s)%len(a)] != b[i] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

type op struct {
	ins bool
	x   string
}

func (o op) String() string {
	v := "Remove "
	if o.ins {
		v = "Insert "
	}
	return v + short(o.x)
}

func short(s string) string { return s[:6] + ".." + s[62:] }
func shorts(l []string) string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = short(l[i])
	}
	return fmt.Sprint(r)
}

func describe(seq []op, q string) interface{} {
	l := make([]string, 0, len(seq)+1)
	for _, o := range seq {
		l = append(l, o.String())
	}
	return append(l, q)
}

type query struct {
	kind    string
	a, b    string
	k       int
	exclude string
}

func (q query) String() string {
	if q.kind == "range" {
		return fmt.Sprintf("GetWithinRange(%s,%s)", short(q.a), short(q.b))
	}
	e := q.exclude
	if e != "" {
		e = short(e)
	}
	return fmt.Sprintf("GetClosest(%s,%d,%q)", short(q.a), q.k, e)
}

func runQuery(t *vh.T, r *dhtring.Ring, m model, seq []op, q query, pass int) {
	key := "ring:" + q.kind
	rep := describe(seq, q.String())
	ok := t.Try(key, rep, func() {
		t.Case(func() string { return fmt.Sprint(rep) })
		if q.kind == "range" {
			got, err := r.GetWithinRange(q.a, q.b)
			want := m.within(q.a, q.b)
			if err != nil || !eq(got, want) {
				t.Violate(key, fmt.Sprintf("%v on {%s} (pass %d): got %s err=%v, want %s", q, shorts(m.sorted()), pass, shorts(got), err, shorts(want)), rep)
			}
			return
		}
		got, err := r.GetClosest(q.a, q.k, q.exclude)
		want := m.closest(q.a, q.k, q.exclude)
		same := eq(got, want)
		all := len(m)
		if m[q.exclude] {
			all--
		}
		if !same && len(want) == all {
			same = rotEq(got, want) // the whole ring: any clockwise listing
		}
		if err != nil || !same {
			t.Violate(key, fmt.Sprintf("%v on {%s} (pass %d): got %s err=%v, want %s", q, shorts(m.sorted()), pass, shorts(got), err, shorts(want)), rep)
		}
	})
	if ok && r.Size() != len(m) {
		t.Violate(key+":size", fmt.Sprintf("after %v: size %d, want %d", q, r.Size(), len(m)), rep)
	}
}

func queries(ids, ex []string, ks []int) []query {
	var qs []query
	pts := append(append([]string{}, ids...), ex...)
	for _, a := range pts {
		for _, b := range pts {
			qs = append(qs, query{kind: "range", a: a, b: b})
		}
		for _, k := range ks {
			qs = append(qs, query{kind: "closest", a: a, k: k})
		}
		for _, e := range pts {
			qs = append(qs, query{kind: "closest", a: a, k: ks[len(ks)/2], exclude: e})
		}
	}
	return qs
}

func apply(r *dhtring.Ring, m model, o op) {
	if o.ins {
		r.Insert(o.x)
		m[o.x] = true
	} else {
		r.Remove(o.x)
		delete(m, o.x)
	}
}

func sequences(t *vh.T, name string, ids, ex []string, depth int, ks []int) {
	var ops []op
	for _, x := range ids {
		ops = append(ops, op{true, x}, op{false, x})
	}
	qs := queries(ids, ex, ks)
	seq := make([]op, 0, depth)
	total := 0
	var rec func()
	node := 0
	rec = func() {
		if t.Over() || len(seq) > 0 && t.Violated("ring:stop") {
			return
		}
		if node++; !t.Mine(node) {
			if len(seq) < depth {
				for _, o := range ops {
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			return
		}
		r := dhtring.CreateRing()
		m := model{}
		ok := t.Try("ring:update", describe(seq, "-"), func() {
			t.Case(func() string { return fmt.Sprint(describe(seq, "build")) })
			for i, o := range seq {
				apply(r, m, o)
				if r.Size() != len(m) {
					t.Violate("ring:update-size", fmt.Sprintf("after op %d: size %d, want %d", i, r.Size(), len(m)), describe(seq[:i+1], "Size"))
				}
			}
		})
		if !ok {
			return
		}
		total++
		t.Transition()
		t.State(strings.Join(m.sorted(), ","))
		// every query on a ring that no earlier query has touched (queries insert and
		// remove a node, which could mend what an update has damaged)
		for _, q := range qs {
			r, m := dhtring.CreateRing(), model{}
			for _, o := range seq {
				apply(r, m, o)
			}
			runQuery(t, r, m, seq, q, 0)
			if len(t.Keys()) > 6 {
				return
			}
		}
		// whole-ring contents first (cheap, decides structural damage), then queries, twice:
		// the second pass sees any damage the first one did.
		for pass := 1; pass <= 2; pass++ {
			for _, q := range qs {
				runQuery(t, r, m, seq, q, pass)
				if len(t.Keys()) > 6 {
					return
				}
			}
			if len(seq) < depth-1 {
				continue
			}
			break
		}
		t.EvalN(len(qs))
		t.Trace()
		if total%5000 == 1 {
			t.Sample(describe(seq, fmt.Sprintf("%d queries agreed", len(qs))))
		}
		if len(seq) == depth {
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
	t.Count(name+"_sequences", total)
	if t.Over() {
		t.NotExhaustive(name + ": deadline")
	}
}

// permutations of inserting a larger set, then every single removal and every pair.
func perms(t *vh.T, ids, ex []string, ks []int) {
	qs := queries(ids, ex, ks)
	p := append([]string{}, ids...)
	total, perm := 0, 0
	var rec func(i int)
	rec = func(i int) {
		if t.Over() {
			return
		}
		if i == len(p) {
			if perm++; !t.Mine(perm) {
				return
			}
			for a := -1; a < len(ids); a++ {
				var seq []op
				for _, x := range p {
					seq = append(seq, op{true, x})
				}
				if a >= 0 {
					seq = append(seq, op{false, ids[a]})
				}
				r := dhtring.CreateRing()
				m := model{}
				t.Try("ring:update", describe(seq, "-"), func() {
					t.Case(func() string { return fmt.Sprint(describe(seq, "build")) })
					for _, o := range seq {
						apply(r, m, o)
					}
				})
				t.State(strings.Join(m.sorted(), ","))
				t.Transition()
				for _, q := range qs {
					r, m := dhtring.CreateRing(), model{}
					for _, o := range seq {
						apply(r, m, o)
					}
					runQuery(t, r, m, seq, q, 0)
					if len(t.Keys()) > 6 {
						return
					}
				}
				for _, q := range qs {
					runQuery(t, r, m, seq, q, 1)
					if len(t.Keys()) > 6 {
						return
					}
				}
				t.EvalN(len(qs))
				t.Trace()
				total++
			}
			return
		}
		for j := i; j < len(p); j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
	t.Count("permutation_histories", total)
	if t.Over() {
		t.NotExhaustive("permutations: deadline")
	}
}

// geometry: every set of members on a dial of n positions (and every position as
// query point), after no or one removal: every shape of gaps and ties round the
// ring, each query on a ring no earlier query has touched.
func geometry(t *vh.T, n, most int) {
	pos := make([]string, n)
	for i := range pos {
		pos[i] = id(fmt.Sprintf("%02x", i*256/n), '0')
	}
	cnt := 0
	for set := 0; set < 1<<n; set++ {
		var l []string
		for i := range pos {
			if set>>i&1 == 1 {
				l = append(l, pos[i])
			}
		}
		if len(l) < 2 || len(l) > most {
			continue
		}
		if cnt++; !t.Mine(cnt) {
			continue
		}
		if t.Over() {
			t.NotExhaustive("geometry: deadline")
			return
		}
		for rot := 0; rot < 2; rot++ {
			for rem := -1; rem < len(l); rem++ {
				var seq []op
				for i := range l {
					seq = append(seq, op{true, l[(i+rot*(len(l)+1)/2)%len(l)]})
				}
				if rem >= 0 {
					seq = append(seq, op{false, l[rem]})
				}
				m := model{}
				for _, o := range seq {
					if o.ins {
						m[o.x] = true
					} else {
						delete(m, o.x)
					}
				}
				t.State(strings.Join(m.sorted(), ","))
				t.Transition()
				t.Trace()
				one := func(qs ...query) {
					r := dhtring.CreateRing()
					for _, o := range seq {
						apply(r, model{}, o)
					}
					for i, q := range qs {
						runQuery(t, r, m, seq, q, i)
					}
					t.EvalN(len(qs))
				}
				for _, a := range pos {
					for k := 1; k <= len(m); k++ {
						one(query{kind: "closest", a: a, k: k})
					}
					// a query that leaves a member out puts it back
					for _, e := range l {
						one(query{kind: "closest", a: a, k: 1, exclude: e}, query{kind: "closest", a: a, k: 2})
					}
					if len(t.Keys()) > 6 {
						return
					}
				}
			}
		}
	}
	t.Count("geometries", cnt)
}

func invalid(t *vh.T) {
	bad := []string{"", "zz", id("g", '0'), id("", '0') + "0", id("", '0')[:63], "0x" + id("", '0')[:62], id(" ", '0'), id("\xff", '0')}
	for pre := 0; pre < 3; pre++ {
		for _, b := range bad {
			r := dhtring.CreateRing()
			for i := 0; i < pre; i++ {
				r.Insert(universe[i])
			}
			rep := fmt.Sprintf("%d members, invalid %q", pre, b)
			t.Try("ring:invalid", rep, func() {
				r.Insert(b)
				r.Remove(b)
				if r.Size() != pre {
					t.Violate("ring:invalid", "an invalid identifier changed the ring: "+rep, rep)
				}
				if _, err := r.GetClosest(b, 1, ""); err == nil {
					t.Violate("ring:invalid", "GetClosest accepted an invalid identifier: "+rep, rep)
				}
				if b != "" {
					if _, err := r.GetClosest(universe[0], 1, b); err == nil {
						t.Violate("ring:invalid", "GetClosest accepted an invalid exclusion: "+rep, rep)
					}
				}
				if _, err := r.GetWithinRange(b, universe[0]); err == nil {
					t.Violate("ring:invalid", "GetWithinRange accepted an invalid start: "+rep, rep)
				}
				if _, err := r.GetWithinRange(universe[0], b); err == nil {
					t.Violate("ring:invalid", "GetWithinRange accepted an invalid end: "+rep, rep)
				}
				if r.Size() != pre {
					t.Violate("ring:invalid", "a rejected query changed the ring: "+rep, rep)
				}
			})
			t.Eval()
		}
	}
}

func main() {
	vh.Main(func(t *vh.T) {
		if t.Shard == 0 {
			invalid(t)
		}
		geometry(t, t.Pick(14, 16), t.Pick(4, 5))
		// A: few ids, long histories
		sequences(t, "three_ids", universe[:3], extra[:2], t.Pick(5, 6), []int{0, 1, 2, 3, 4})
		// B: more ids, medium histories
		sequences(t, "five_ids", universe[:5], extra[:1], t.Pick(4, 5), []int{1, 2, 4, 6})
		// C: larger rings, every insertion order, every single removal
		perms(t, universe[:t.Pick(6, 7)], extra, []int{1, 2, 3, 5, 6, 7, 16})
		t.Assume("identifiers use one hex spelling (lower case), as every caller in the repository does")
	})
}
