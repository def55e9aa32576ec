//go:build go1.21

// C19: Merkle proofs over all small lists, all leaves, all single alterations,
// against an independent description of the tree.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/verif/mtree"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/cbergoon/merkletree"
)

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	t.Violate(key, d, d)
}

func step(name string, f func()) {
	t.Case(func() string { return name })
	t.Eval()
	t.Distinct(name)
	t.Try("crash", name, f)
}

func content(b []byte) *cid.ContentID {
	c, err := cid.NewContentIDFromBytes(b)
	if err != nil {
		panic(err)
	}
	return c
}

var syms [][]byte

type list struct {
	name   string
	leaves [][]byte
	padded string
	root   string
	real   *fcrmerkletree.FCRMerkleTree
}

func name(leaves [][]byte) string {
	s := ""
	for _, l := range leaves {
		s += hex.EncodeToString(l[:2]) + hex.EncodeToString(l[30:]) + " "
	}
	return "[" + strings.TrimSpace(s) + "]"
}

func build(leaves [][]byte) *list {
	l := &list{name: name(leaves), leaves: leaves, padded: mtree.Padded(leaves)}
	var cs []merkletree.Content
	for _, x := range leaves {
		cs = append(cs, content(x))
	}
	var err error
	l.real, err = fcrmerkletree.CreateMerkleTree(cs)
	if err != nil {
		bad("build", "no tree for %s: %v", l.name, err)
		return nil
	}
	l.root = l.real.GetMerkleRoot()
	return l
}

// decode makes a real proof from a wire form, nil when it is refused
func decode(j []byte) *fcrmerkletree.FCRMerkleProof {
	var p fcrmerkletree.FCRMerkleProof
	if err := json.Unmarshal(j, &p); err != nil {
		return nil
	}
	return &p
}

func has(leaves [][]byte, x []byte) bool {
	for _, l := range leaves {
		if string(l) == string(x) {
			return true
		}
	}
	return false
}

// complete checks every leaf's proof, and that no proof stands for other content
func complete(l *list, others [][]byte) {
	for _, leaf := range l.leaves {
		p, err := l.real.GenerateMerkleProof(content(leaf))
		if err != nil || p == nil {
			bad("no-proof", "%s: no proof for leaf %x: %v", l.name, leaf[30:], err)
			continue
		}
		if !p.VerifyContent(content(leaf), l.root) {
			bad("incomplete", "%s: the proof for leaf %x does not verify", l.name, leaf[30:])
		}
		j, err := json.Marshal(p)
		if err != nil {
			bad("encode", "%s: %v", l.name, err)
			continue
		}
		q := decode(j)
		if q == nil || !q.VerifyContent(content(leaf), l.root) {
			bad("encode", "%s: the proof for leaf %x does not verify after encoding", l.name, leaf[30:])
			continue
		}
		if w, ok := mtree.Parse(j); !ok || !w.Holds(leaf, l.root) {
			bad("encode", "%s: the encoded proof for leaf %x does not hold by the rules: %s", l.name, leaf[30:], j)
		}
		for _, o := range others {
			if string(o) == string(leaf) {
				continue
			}
			for i, x := range []*fcrmerkletree.FCRMerkleProof{p, q} {
				if x.VerifyContent(content(o), l.root) {
					bad("other-content", "%s: the proof for leaf %x (decoded: %v) verifies for %x", l.name, leaf[30:], i == 1, o)
				}
			}
			t.EvalN(2)
		}
		// still unchanged by all that
		if j2, err := json.Marshal(p); err != nil || string(j2) != string(j) {
			bad("changed", "%s: the proof for leaf %x changed by being used", l.name, leaf[30:])
		}
	}
	for _, o := range others {
		if has(l.leaves, o) {
			continue
		}
		if p, err := l.real.GenerateMerkleProof(content(o)); err == nil && p != nil && p.VerifyContent(content(o), l.root) {
			if hex.EncodeToString(o) == l.root {
				// the rest of any proof, for the root itself
				bad("inner-node-as-leaf", "%s: the root passes for a leaf", l.name)
				continue
			}
			bad("absent", "%s: a proof is made for absent content %x", l.name, o)
		}
	}
}

// alter checks that no alteration of a proof of leaf verifies
func alter(l *list, leaf []byte, bits int) {
	real, err := l.real.GenerateMerkleProof(content(leaf))
	if err != nil {
		return
	}
	j, _ := json.Marshal(real)
	w, ok := mtree.Parse(j)
	if !ok {
		bad("encode", "%s: proof %s cannot be read", l.name, j)
		return
	}
	// nodes on the way up, to know where a node is paired with itself
	var way [][]byte
	cur := leaf
	for i, s := range w.Path {
		way = append(way, cur)
		if w.Index[i] == 1 {
			cur = mtree.H(cur, s)
		} else {
			cur = mtree.H(s, cur)
		}
	}
	try := func(what string, p mtree.Proof) {
		t.EvalN(1)
		t.Distinct(l.name + what)
		q := decode(p.JSON())
		if q != nil && q.VerifyContent(content(leaf), l.root) {
			bad("altered", "%s: the proof for leaf %x still verifies with %s", l.name, leaf[30:], what)
		}
	}
	for i := range w.Path {
		for k := range w.Path[i] {
			for b := 0; b < bits; b++ {
				p := w.Clone()
				p.Path[i][k] ^= 1 << b
				try(fmt.Sprintf("bit %d of byte %d of step %d flipped", b, k, i), p)
			}
		}
		for _, v := range []int64{1 - w.Index[i], -1, 2, 3, 255, 256, 1 << 32, math.MaxInt64, math.MinInt64} {
			if v == 1-w.Index[i] && string(way[i]) == string(w.Path[i]) {
				continue
			}
			p := w.Clone()
			p.Index[i] = v
			try(fmt.Sprintf("side of step %d set to %d", i, v), p)
		}
		p := w.Clone()
		p.Path = append(p.Path[:i], p.Path[i+1:]...)
		try(fmt.Sprintf("path step %d removed", i), p)
		p = w.Clone()
		p.Index = append(p.Index[:i], p.Index[i+1:]...)
		try(fmt.Sprintf("side %d removed", i), p)
		p = w.Clone()
		p.Index = append(p.Index[:i], p.Index[i+1:]...)
		p.Path = append(p.Path[:i], p.Path[i+1:]...)
		try(fmt.Sprintf("step %d removed", i), p)
		for _, s := range [][]byte{nil, {}, w.Path[i][:31], append([]byte{0}, w.Path[i]...), append(append([]byte{}, w.Path[i]...), 0), append(append([]byte{}, w.Path[i]...), way[i]...)} {
			p = w.Clone()
			p.Path[i] = s
			try(fmt.Sprintf("step %d resized to %d", i, len(s)), p)
		}
		if i > 0 {
			if string(w.Path[i]) != string(w.Path[i-1]) {
				p = w.Clone()
				p.Path[i], p.Path[i-1] = p.Path[i-1], p.Path[i]
				try(fmt.Sprintf("steps %d and %d swapped", i-1, i), p)
			}
		}
		p = w.Clone()
		p.Path = append(p.Path[:i+1], p.Path[i:]...)
		p.Index = append(p.Index[:i+1], p.Index[i:]...)
		try(fmt.Sprintf("step %d doubled", i), p)
	}
	p := w.Clone()
	p.Path = append(p.Path, make([]byte, 32))
	try("a path step added", p)
	p = w.Clone()
	p.Index = append(p.Index, 1)
	try("a side added", p)
	p = w.Clone()
	p.Index = append(p.Index, 0)
	try("a side added (0)", p)
	p = w.Clone()
	p.Path, p.Index = append(p.Path, []byte{}), append(p.Index, 1)
	try("an empty step added", p)
	try("nothing", mtree.Proof{})
	try("no sides", mtree.Proof{Path: w.Path})
	try("no path", mtree.Proof{Index: w.Index})

	// the root as it is written
	for i := 0; i <= len(l.root); i++ {
		for _, r := range []string{"0", "f", "g", "", " ", "A"} {
			s := l.root[:i] + r
			if i < len(l.root) {
				s += l.root[i+1:]
			}
			if s != l.root && real.VerifyContent(content(leaf), s) {
				bad("root", "%s verifies against root %q", l.name, s)
			}
		}
	}
	if u := strings.ToUpper(l.root); u != l.root && real.VerifyContent(content(leaf), u) {
		bad("root", "%s verifies against root %q", l.name, u)
	}

	// the wire form, byte by byte
	raw := w.Raw()
	wire := func(what string, b []byte) {
		t.EvalN(1)
		j, _ := json.Marshal(b)
		q := decode(j)
		if q == nil || !q.VerifyContent(content(leaf), l.root) {
			return
		}
		// still verifies: then it must be the very same proof, written otherwise
		j2, err := json.Marshal(q)
		if err != nil || string(j2) == string(w.JSON()) {
			return
		}
		if z, ok := mtree.Parse(j2); ok && z.Holds(leaf, l.root) && len(z.Path) == len(w.Path) {
			same := true
			for i := range z.Path {
				same = same && string(z.Path[i]) == string(w.Path[i]) && (z.Index[i] == w.Index[i] || string(way[i]) == string(w.Path[i]))
			}
			if same {
				return
			}
		}
		bad("altered", "%s: the proof for leaf %x still verifies with %s", l.name, leaf[30:], what)
	}
	for i := range raw {
		wire(fmt.Sprintf("the wire form cut at %d", i), raw[:i])
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, '0', '1', 'A', '"', ',', '[', ']', raw[i] + 1, raw[i] - 1} {
			b := append([]byte{}, raw...)
			b[i] = v
			wire(fmt.Sprintf("byte %d of the wire form set to %d", i, v), b)
		}
	}
	wire("a byte added", append(append([]byte{}, raw...), ' '))
	for _, s := range []string{"null", "0", `""`, `"AAAA"`, `"AAAAAA=="`, `"AAAAAAA="`, `"/////w=="`, `"//////////8="`, `"AAAAAgAAAAAC"`, "[]", "{}", `"AAAABG51bGwAAAAEbnVsbA=="`, "", "x"} {
		q := decode([]byte(s))
		if q != nil && q.VerifyContent(content(leaf), l.root) {
			bad("altered", "%s: the proof %s verifies", l.name, s)
		}
	}
}

func lists(k, n int) (out [][][]byte) {
	cur := [][][]byte{{}}
	for d := 0; d < n; d++ {
		var next [][][]byte
		for _, p := range cur {
			for s := 0; s < k; s++ {
				q := append(append([][]byte{}, p...), syms[s])
				next = append(next, q)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func main() {
	vh.Main(func(x *vh.T) {
		t = x
		for i := 0; i < 300; i++ {
			b := make([]byte, 32)
			b[31] = byte(i + 1)
			b[30] = byte((i + 1) >> 8)
			switch i {
			case 1:
				b[0] = 0xff
			case 2:
				b = make([]byte, 32)
			case 3:
				for k := range b {
					b[k] = 0xff
				}
			}
			syms = append(syms, b)
		}
		if _, err := fcrmerkletree.CreateMerkleTree(nil); err == nil {
			bad("empty", "a tree without leaves is made")
		}
		histories(2, t.Pick(6, 7))
		histories(3, t.Pick(5, 6))
		histories(5, t.Pick(4, 5))
		seen := map[string]bool{}
		var all []*list
		add := func(leaves [][]byte) {
			n := fmt.Sprintf("%x", leaves)
			if seen[n] {
				return
			}
			seen[n] = true
			step("build "+name(leaves), func() {
				l := build(leaves)
				if l == nil {
					return
				}
				if r := mtree.Root(leaves); l.root != r {
					bad("root-value", "%s: root %s, by the rules %s", l.name, l.root, r)
				}
				all = append(all, l)
			})
		}
		for _, kn := range [][2]int{{2, t.Pick(6, 8)}, {3, t.Pick(5, 6)}, {4, t.Pick(4, 5)}} {
			for _, l := range lists(kn[0], kn[1]) {
				add(l)
			}
		}
		nsmall := len(all)
		for n := 1; n <= t.Pick(40, 130); n++ {
			add(syms[:n])
		}
		// lists whose leaves are nodes of another list's tree
		inner := map[string]bool{}
		for _, l := range append([]*list{}, all[:200]...) {
			lv := mtree.Levels(l.leaves)
			for k := 1; k < len(lv); k++ {
				inner[fmt.Sprintf("%x", lv[k])] = true
				add(lv[k])
			}
		}
		t.Count("lists", len(all))

		// different lists, different roots
		byRoot := map[string][]*list{}
		for _, l := range all {
			byRoot[l.root] = append(byRoot[l.root], l)
		}
		for _, g := range byRoot {
			for _, l := range g[1:] {
				switch {
				case l.padded == g[0].padded:
					bad("same-root:last-leaves-repeated", "%s and %s have the same root", g[0].name, l.name)
				case inner[fmt.Sprintf("%x", l.leaves)] || inner[fmt.Sprintf("%x", g[0].leaves)]:
					bad("same-root:inner-nodes-as-leaves", "%s and %s have the same root", g[0].name, l.name)
				default:
					bad("same-root", "%s and %s have the same root", g[0].name, l.name)
				}
			}
		}

		for i, l := range all {
			if !t.Mine(i) {
				continue
			}
			l := l
			step("complete "+l.name, func() {
				others := append([][]byte{}, syms[:6]...)
				for k, lv := range mtree.Levels(l.leaves) {
					if k > 0 {
						others = append(others, lv...)
					}
				}
				if i >= nsmall {
					others = append(others, l.leaves...)
				}
				complete(l, others)
			})
			// every proof against every other root
			step("cross "+l.name, func() {
				done := map[string]bool{}
				for _, leaf := range l.leaves {
					if done[string(leaf)] || len(done) > 8 {
						continue
					}
					done[string(leaf)] = true
					p, err := l.real.GenerateMerkleProof(content(leaf))
					if err != nil {
						continue
					}
					c := content(leaf)
					for _, o := range all {
						if o.root != l.root && p.VerifyContent(c, o.root) {
							bad("other-root", "the proof of %x in %s verifies against the root of %s", leaf, l.name, o.name)
						}
					}
					t.EvalN(len(all))
				}
			})
			if i%7 == 0 && len(l.leaves) <= 8 || i >= nsmall && len(l.leaves) <= t.Pick(9, 20) {
				step("alter "+l.name, func() {
					done := map[string]bool{}
					for _, leaf := range l.leaves {
						if !done[string(leaf)] {
							done[string(leaf)] = true
							alter(l, leaf, t.Pick(1, 8))
						}
					}
				})
			}
			// the rest of a proof, for the node it would start from
			step("inner "+l.name, func() {
				for k, leaf := range l.leaves {
					p := mtree.For(l.leaves, k)
					node := leaf
					for d := range p.Path {
						if p.Index[d] == 1 {
							node = mtree.H(node, p.Path[d])
						} else {
							node = mtree.H(p.Path[d], node)
						}
						q := decode(mtree.Proof{Path: p.Path[d+1:], Index: p.Index[d+1:]}.JSON())
						if q != nil && q.VerifyContent(content(node), l.root) {
							bad("inner-node-as-leaf", "%s: inner node %x passes for a leaf with the rest of the proof of leaf %d", l.name, node, k)
						}
					}
				}
			})
			if t.Over() {
				t.NotExhaustive("deadline")
				break
			}
		}
		t.Sample(map[string]interface{}{"lists": len(all), "first": all[0].name, "last": all[len(all)-1].name})
	})
}
