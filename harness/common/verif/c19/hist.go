//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
	"github.com/cbergoon/merkletree"
)

// histories walks all sequences of making proofs of one tree, decoding into them and checking them.
func histories(n, depth int) {
	var leaves [][]byte
	var own []*cid.ContentID
	for i := 0; i < n; i++ {
		leaves = append(leaves, syms[i*5])
		own = append(own, content(syms[i*5]))
	}
	stranger := content(syms[99])
	l := build(leaves)
	others := [][]byte{syms[99]}
	for i := 1; i < n; i++ {
		others = append(others, syms[100+i])
	}
	l2 := build(others)
	if l == nil || l2 == nil {
		return
	}
	foreign, err := l2.real.GenerateMerkleProof(stranger)
	if err != nil {
		panic(err)
	}
	raw, err := json.Marshal(foreign)
	if err != nil {
		panic(err)
	}
	vhist.Walk(t, fmt.Sprintf("a tree of %d leaves", n), depth, func() []vhist.Op {
		var cs []merkletree.Content
		for _, x := range leaves {
			cs = append(cs, content(x))
		}
		tree, err := fcrmerkletree.CreateMerkleTree(cs)
		if err != nil {
			panic(err)
		}
		var kept [2]*fcrmerkletree.FCRMerkleProof
		of := [2]int{-1, -1} // the leaf it is of; -2: the foreign one
		var ops []vhist.Op
		op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
		for i := range leaves {
			i := i
			op(fmt.Sprintf("prove leaf %d", i), func() (string, string) {
				p, err := tree.GenerateMerkleProof(own[i])
				if err != nil || p == nil {
					return "no-proof", fmt.Sprint(err)
				}
				kept[i%2], of[i%2] = p, i
				return "", ""
			})
		}
		op("prove a stranger", func() (string, string) {
			p, err := tree.GenerateMerkleProof(stranger)
			if err == nil && p != nil && p.VerifyContent(stranger, l.root) {
				return "absent", "a proof is made for it"
			}
			return "", ""
		})
		op("decode into the first kept proof", func() (string, string) {
			if kept[0] == nil {
				kept[0] = &fcrmerkletree.FCRMerkleProof{}
			}
			if err := json.Unmarshal(raw, kept[0]); err != nil {
				return "encode", err.Error()
			}
			of[0] = -2
			return "", ""
		})
		op("look", func() (string, string) {
			if tree.GetMerkleRoot() != l.root {
				return "history-root", "the root changed"
			}
			for k, p := range kept {
				if p == nil {
					continue
				}
				for again := 0; again < 2; again++ {
					for i := range leaves {
						if ok := p.VerifyContent(own[i], l.root); ok != (of[k] == i) {
							return "history", fmt.Sprintf("kept proof %d, of leaf %d, verifies for leaf %d: %v", k, of[k], i, ok)
						}
						if p.VerifyContent(own[i], l2.root) {
							return "history", fmt.Sprintf("kept proof %d, of leaf %d, verifies for leaf %d under another root", k, of[k], i)
						}
					}
					if ok := p.VerifyContent(stranger, l2.root); ok != (of[k] == -2) {
						return "history", fmt.Sprintf("kept proof %d, of leaf %d, verifies for the other tree: %v", k, of[k], ok)
					}
				}
			}
			for i := range leaves {
				if own[i].ToString() != fmt.Sprintf("%x", leaves[i]) {
					return "history", fmt.Sprintf("the content of leaf %d changed", i)
				}
			}
			return "", ""
		})
		return ops
	})
}
