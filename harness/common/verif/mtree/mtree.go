//go:build go1.21

// Package mtree is the reference description of the Merkle tree over content
// IDs and of the wire form of proofs, written from the documented layout.
package mtree

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
)

// H combines two nodes.
func H(l, r []byte) []byte {
	h := sha256.New()
	h.Write(l)
	h.Write(r)
	return h.Sum(nil)
}

// Levels returns all levels of the tree, leaves first, each padded to an even
// number of nodes by repeating its last one.
func Levels(leaves [][]byte) [][][]byte {
	var out [][][]byte
	cur := append([][]byte{}, leaves...)
	for {
		if len(cur)%2 == 1 && (len(cur) > 1 || len(out) == 0) {
			cur = append(cur, cur[len(cur)-1])
		}
		out = append(out, cur)
		if len(cur) == 1 {
			return out
		}
		var next [][]byte
		for i := 0; i < len(cur); i += 2 {
			next = append(next, H(cur[i], cur[i+1]))
		}
		cur = next
	}
}

// Root is the root in hex.
func Root(leaves [][]byte) string {
	l := Levels(leaves)
	return hex.EncodeToString(l[len(l)-1][0])
}

// Padded writes out the leaves of the complete tree that has this root.
func Padded(leaves [][]byte) string {
	var up func(lv [][][]byte, level, i int) string
	lv := Levels(leaves)
	up = func(lv [][][]byte, level, i int) string {
		if level == 0 {
			return hex.EncodeToString(lv[0][i]) + ","
		}
		i = min(i, len(lv[level-1])/2-1) // a repeated node
		return up(lv, level-1, 2*i) + up(lv, level-1, 2*i+1)
	}
	return up(lv, len(lv)-1, 0)
}

// Proof is a proof as on the wire.
type Proof struct {
	Path  [][]byte
	Index []int64
}

// For makes the proof of the i-th leaf.
func For(leaves [][]byte, i int) Proof {
	var p Proof
	for _, l := range Levels(leaves) {
		if len(l) == 1 {
			break
		}
		if i%2 == 0 {
			p.Path = append(p.Path, l[i+1])
			p.Index = append(p.Index, 1)
		} else {
			p.Path = append(p.Path, l[i-1])
			p.Index = append(p.Index, 0)
		}
		i /= 2
	}
	return p
}

// Raw is the wire form before base64.
func (p Proof) Raw() []byte {
	a, _ := json.Marshal(p.Path)
	b, _ := json.Marshal(p.Index)
	out := binary.BigEndian.AppendUint32(nil, uint32(len(a)))
	out = append(out, a...)
	out = binary.BigEndian.AppendUint32(out, uint32(len(b)))
	return append(out, b...)
}

// JSON is the wire form.
func (p Proof) JSON() []byte {
	b, _ := json.Marshal(p.Raw())
	return b
}

// Parse reads the wire form.
func Parse(b []byte) (p Proof, ok bool) {
	var raw []byte
	if json.Unmarshal(b, &raw) != nil || len(raw) < 4 {
		return p, false
	}
	n := int(binary.BigEndian.Uint32(raw))
	if n < 0 || len(raw) < 8+n || json.Unmarshal(raw[4:4+n], &p.Path) != nil || json.Unmarshal(raw[8+n:], &p.Index) != nil {
		return p, false
	}
	return p, true
}

// Clone copies.
func (p Proof) Clone() Proof {
	var q Proof
	for _, x := range p.Path {
		q.Path = append(q.Path, append([]byte{}, x...))
	}
	q.Index = append(q.Index, p.Index...)
	return q
}

// Holds computes the reference verdict.
func (p Proof) Holds(leaf []byte, root string) bool {
	if len(p.Path) != len(p.Index) {
		return false
	}
	cur := leaf
	for i, s := range p.Path {
		switch p.Index[i] {
		case 1:
			cur = H(cur, s)
		case 0:
			cur = H(s, cur)
		default:
			return false
		}
	}
	return hex.EncodeToString(cur) == root
}
