//go:build go1.21

// C27: identifiers in every form, and distances, over all boundary values.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	cmath "github.com/ConsenSys/fc-retrieval/common/pkg/math"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	t.Violate(key, d, d)
}

func step(name string, f func()) {
	t.Case(func() string { return name })
	t.Eval()
	t.Distinct(name)
	t.Try("crash", name, f)
}

type id interface {
	ToString() string
	ToBytes() []byte
	MarshalJSON() ([]byte, error)
}

// kind is one of the two identifier types behind one face
type kind struct {
	name  string
	num   func(n *big.Int) (id, error)
	bytes func(b []byte) (id, error)
	hex   func(s string) (id, error)
	json  func(p []byte) (id, error)
}

var kinds = []kind{
	{"node", func(n *big.Int) (id, error) { x, err := nodeid.NewNodeID(n); return x, err },
		func(b []byte) (id, error) { x, err := nodeid.NewNodeIDFromBytes(b); return x, err },
		func(s string) (id, error) { x, err := nodeid.NewNodeIDFromHexString(s); return x, err },
		func(p []byte) (id, error) { var x nodeid.NodeID; err := json.Unmarshal(p, &x); return &x, err }},
	{"content", func(n *big.Int) (id, error) { x, err := cid.NewContentID(n); return x, err },
		func(b []byte) (id, error) { x, err := cid.NewContentIDFromBytes(b); return x, err },
		func(s string) (id, error) { x, err := cid.NewContentIDFromHexString(s); return x, err },
		func(p []byte) (id, error) { var x cid.ContentID; err := json.Unmarshal(p, &x); return &x, err }},
}

// check compares an identifier in every form with its 32 bytes
func check(k kind, what string, x id, w []byte) {
	if !bytes.Equal(x.ToBytes(), w) || x.ToString() != hex.EncodeToString(w) {
		bad("value", "%s from %s: %x %s, want %x", k.name, what, x.ToBytes(), x.ToString(), w)
		return
	}
	if n, ok := x.(*nodeid.NodeID); ok {
		a := n.AsBytes32()
		if !bytes.Equal(a[:], w) {
			bad("value", "%s from %s: as 32 bytes %x, want %x", k.name, what, a, w)
		}
	}
	j, err := json.Marshal(x)
	if err != nil {
		bad("json", "%s from %s: %v", k.name, what, err)
		return
	}
	y, err := k.json(j)
	if err != nil || !bytes.Equal(y.ToBytes(), w) {
		bad("json", "%s from %s: through %s: %v", k.name, what, j, err)
	}
	// inside a structure, too
	j, err = json.Marshal(map[string]interface{}{"a": x})
	var m map[string]json.RawMessage
	if err != nil || json.Unmarshal(j, &m) != nil {
		bad("json", "%s from %s: %v", k.name, what, err)
		return
	}
	if y, err := k.json(m["a"]); err != nil || !bytes.Equal(y.ToBytes(), w) {
		bad("json", "%s from %s: through %s: %v", k.name, what, j, err)
	}
}

func pad(b []byte) []byte {
	w := make([]byte, 32)
	copy(w[32-len(b):], b)
	return w
}

func tryBytes(k kind, b []byte) {
	step(fmt.Sprintf("%s bytes %x", k.name, b), func() {
		save := append([]byte{}, b...)
		x, err := k.bytes(b)
		h := hex.EncodeToString(b)
		if len(b) > 32 {
			if err == nil {
				bad("too-long", "%s from %d bytes accepted", k.name, len(b))
			}
			if _, err := k.hex(h); err == nil {
				bad("too-long", "%s from %d hex digits accepted", k.name, len(h))
			}
		} else {
			if err != nil {
				bad("refused", "%s from bytes %x: %v", k.name, b, err)
				return
			}
			w := pad(save)
			check(k, fmt.Sprintf("bytes %x", save), x, w)
			// later changes of the input are not changes of the identifier
			for i := range b {
				b[i] ^= 0x11
			}
			check(k, "bytes changed later", x, w)
			for _, s := range []string{h, strings.ToUpper(h)} {
				y, err := k.hex(s)
				if err != nil {
					bad("refused", "%s from hex %s: %v", k.name, s, err)
					continue
				}
				check(k, "hex "+s, y, w)
			}
			n := new(big.Int).SetBytes(save)
			y, err := k.num(n)
			if err != nil {
				bad("refused", "%s from number %v: %v", k.name, n, err)
			} else {
				check(k, "number "+n.String(), y, w)
			}
			if n.Sign() > 0 {
				if _, err := k.num(new(big.Int).Neg(n)); err == nil {
					bad("negative", "%s from number -%v accepted", k.name, n)
				}
			}
		}
		// the JSON form has exactly 32 bytes
		j, _ := json.Marshal(save)
		y, err := k.json(j)
		if (err == nil) != (len(save) == 32) {
			bad("json-length", "%s from JSON of %d bytes: %v", k.name, len(save), err)
		} else if err == nil && !bytes.Equal(y.ToBytes(), save) {
			bad("json", "%s from JSON %s", k.name, j)
		}
	})
}

// again: an identifier, or a list of them, that is read twice; what was copied from it in between stays.
func again() {
	var vs [][]byte
	for v := 0; v < 256; v += 5 {
		vs = append(vs, bytes.Repeat([]byte{byte(v)}, 32), pad([]byte{byte(v), 1}))
	}
	text := func(b []byte) []byte {
		j, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		return j
	}
	for _, a := range vs {
		for _, b := range vs {
			a, b := a, b
			step(fmt.Sprintf("identifiers read as %x, copied, read as %x", a, b), func() {
				var n nodeid.NodeID
				var c cid.ContentID
				var ns []nodeid.NodeID
				var cs []cid.ContentID
				list := func(x []byte) []byte { return []byte("[" + string(text(x)) + "," + string(text(x)) + "]") }
				read := func(x []byte) {
					for _, err := range []error{json.Unmarshal(text(x), &n), json.Unmarshal(text(x), &c), json.Unmarshal(list(x), &ns), json.Unmarshal(list(x), &cs)} {
						if err != nil {
							bad("json", "identifiers from %x: %v", x, err)
						}
					}
				}
				all := func(x []byte, what string, l ...id) {
					for i, y := range l {
						if !bytes.Equal(y.ToBytes(), x) || y.ToString() != hex.EncodeToString(x) {
							bad("again", "%s, %d: %s, want %x", what, i, y.ToString(), x)
						}
					}
				}
				read(a)
				n1, c1, ns1, cs1 := n, c, append([]nodeid.NodeID{}, ns...), append([]cid.ContentID{}, cs...)
				read(b)
				all(a, "copied before", &n1, &c1, &ns1[0], &ns1[1], &cs1[0], &cs1[1])
				all(b, "read again", &n, &c, &ns[0], &ns[1], &cs[0], &cs[1])
			})
		}
	}
}

func values() [][]byte {
	var r [][]byte
	for n := 0; n <= 40; n++ {
		r = append(r, make([]byte, n), bytes.Repeat([]byte{0xff}, n))
		for i := 0; i < n; i++ {
			for _, v := range []byte{1, 0x30, 0x80, 0xff} {
				b := make([]byte, n)
				b[i] = v
				r = append(r, b)
			}
			b := bytes.Repeat([]byte{0xff}, n)
			b[i] = 0
			r = append(r, b)
			b = make([]byte, n)
			for j := i; j < n; j++ {
				b[j] = byte(j + 1)
			}
			r = append(r, b)
		}
	}
	for v := 0; v < 256; v++ {
		r = append(r, bytes.Repeat([]byte{byte(v)}, 32), []byte{byte(v)}, []byte{0, byte(v)})
	}
	return r
}

func numbers(k kind) {
	one := big.NewInt(1)
	lim := new(big.Int).Lsh(one, 256)
	for e := uint(0); e <= 300; e++ {
		for d := int64(-1); d <= 1; d++ {
			n := new(big.Int).Add(new(big.Int).Lsh(one, e), big.NewInt(d))
			step(fmt.Sprintf("%s number %v", k.name, n), func() {
				x, err := k.num(n)
				if (err == nil) != (n.Sign() >= 0 && n.Cmp(lim) < 0) {
					bad("number-range", "%s from %v: %v", k.name, n, err)
				} else if err == nil {
					check(k, "number "+n.String(), x, pad(n.Bytes()))
				}
			})
		}
	}
}

func texts(k kind) {
	good := strings.Repeat("0123456789abcdef", 4)
	for i := 0; i <= len(good); i++ {
		s := good[:i]
		step(k.name+" hex "+s, func() {
			x, err := k.hex(s)
			if (err == nil) != (i%2 == 0) {
				bad("hex", "%s from %q: %v", k.name, s, err)
			} else if err == nil {
				b, _ := hex.DecodeString(s)
				check(k, "hex "+s, x, pad(b))
			}
		})
		if i < len(good) {
			for _, c := range []string{"g", "G", " ", "x", "-", "\x00", "é", ":", "@", "`", "/"} {
				s := good[:i] + c + good[min(i+len(c), len(good)):]
				step(k.name+" hex "+s, func() {
					if _, err := k.hex(s); err == nil {
						bad("hex", "%s from %q accepted", k.name, s)
					}
				})
			}
		}
	}
	b64 := base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{7}, 32))
	for _, s := range []string{"null", "0", "1", "true", "{}", "[]", "[1]", `""`, `"` + good + `"`, `"0x00"`, `"` + b64[:len(b64)-1] + `"`, `"` + b64 + `="`, `"` + b64[1:] + `"`, `"!` + b64[1:] + `"`, `["` + b64 + `"]`, `{"id":"` + b64 + `"}`, "", `"`} {
		step(k.name+" JSON "+s, func() {
			if x, err := k.json([]byte(s)); err == nil {
				bad("json-malformed", "%s from %s gives %s", k.name, s, x.ToString())
			}
		})
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// distance the plain way: the smaller of the two ways round
func dist(a, b, n *big.Int) *big.Int {
	x := new(big.Int).Mod(new(big.Int).Sub(a, b), n)
	y := new(big.Int).Mod(new(big.Int).Sub(b, a), n)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

func distances() {
	one := big.NewInt(1)
	try := func(a, b, n *big.Int, width int) {
		f := func(x *big.Int) []byte { w := make([]byte, width); x.FillBytes(w); return w }
		step(fmt.Sprintf("distance %v %v mod %v", a, b, n), func() {
			card := new(big.Int).Set(n)
			d, err := cmath.GetDistance(f(a), f(b), card)
			e, err2 := cmath.GetDistance(f(b), f(a), card)
			if err != nil || err2 != nil || d.Cmp(dist(a, b, n)) != 0 || e.Cmp(d) != 0 {
				bad("distance", "of %v and %v on a ring of %v: %v and back %v (%v %v), want %v", a, b, n, d, e, err, err2, dist(a, b, n))
			}
			if card.Cmp(n) != 0 {
				bad("distance", "changed the ring size from %v to %v", n, card)
			}
			if d != nil && (d.Sign() == 0) != (a.Cmp(b) == 0) {
				bad("distance", "of %v and %v is %v", a, b, d)
			}
		})
	}
	// every pair on every small ring
	for n := int64(1); n <= 24; n++ {
		for a := int64(0); a < n; a++ {
			for b := int64(0); b < n; b++ {
				try(big.NewInt(a), big.NewInt(b), big.NewInt(n), 1)
			}
		}
	}
	full := new(big.Int).Lsh(one, 256)
	var vs []*big.Int
	for _, e := range []uint{0, 1, 8, 127, 128, 254, 255, 256} {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(new(big.Int).Lsh(one, e), big.NewInt(d))
			if v.Sign() >= 0 && v.Cmp(full) < 0 {
				vs = append(vs, v)
			}
		}
	}
	for _, a := range vs {
		for _, b := range vs {
			try(a, b, full, 32)
		}
	}
}

func sorting() {
	one := big.NewInt(1)
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(one, 255), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)}
	full := new(big.Int).Lsh(one, 256)
	mk := func(i int) *nodeid.NodeID { x, _ := nodeid.NewNodeID(vals[i]); return x }
	starts := append([]*big.Int{big.NewInt(2), new(big.Int).Add(vals[4], one)}, vals...)
	max := t.Pick(4, 6)
	var rec func(l []int)
	rec = func(l []int) {
		for _, s := range starts {
			step(fmt.Sprintf("clockwise from %v: %v", s, l), func() {
				from, _ := nodeid.NewNodeID(s)
				in := make([]*nodeid.NodeID, len(l))
				want := make([]string, len(l))
				ord := append([]int{}, l...)
				sort.SliceStable(ord, func(i, j int) bool {
					x := new(big.Int).Mod(new(big.Int).Sub(vals[ord[i]], s), full)
					y := new(big.Int).Mod(new(big.Int).Sub(vals[ord[j]], s), full)
					return x.Cmp(y) < 0
				})
				for i := range l {
					in[i], want[i] = mk(l[i]), mk(ord[i]).ToString()
				}
				out := nodeid.SortClockwise(from, in)
				got := make([]string, len(out))
				for i := range out {
					got[i] = out[i].ToString()
				}
				if strings.Join(got, " ") != strings.Join(want, " ") {
					bad("clockwise", "from %v: %v gives %v, want %v", s, l, got, want)
				}
			})
		}
		if len(l) < max {
			for i := range vals {
				rec(append(l[:len(l):len(l)], i))
			}
		}
	}
	rec(nil)
}

func lists() {
	var ns []nodeid.NodeID
	var cs []cid.ContentID
	var want []string
	for _, v := range values() {
		if len(v) > 32 {
			continue
		}
		n, _ := nodeid.NewNodeIDFromBytes(v)
		c, _ := cid.NewContentIDFromBytes(v)
		ns, cs, want = append(ns, *n), append(cs, *c), append(want, hex.EncodeToString(pad(v)))
	}
	step("lists", func() {
		if strings.Join(nodeid.MapNodeIDToString(ns), " ") != strings.Join(want, " ") || strings.Join(cid.MapCIDToString(cs), " ") != strings.Join(want, " ") {
			bad("list", "texts of a list of identifiers differ")
		}
		for i := range cs {
			for j := range cs {
				if eq, err := cs[i].Equals(&cs[j]); err != nil || eq != (want[i] == want[j]) {
					bad("equality", "%s and %s: %v %v", want[i], want[j], eq, err)
				}
			}
			if i > 200 {
				break
			}
		}
	})
	for i := 0; i < 20; i++ {
		step(fmt.Sprint("key ", i), func() {
			k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
			if err != nil {
				return
			}
			h, _ := k.HashPublicKey()
			n, err := nodeid.NewNodeIDFromPublicKey(k)
			if err != nil || !bytes.Equal(n.ToBytes(), h) {
				bad("key-id", "%v %v", n, err)
			}
			if len(nodeid.NewRandomNodeID().ToBytes()) != 32 || len(cid.NewRandomContentID().ToBytes()) != 32 {
				bad("random", "wrong length")
			}
		})
	}
}

func main() {
	vh.Main(func(tt *vh.T) {
		t = tt
		vs := values()
		for i, v := range vs {
			if t.Mine(i) {
				for _, k := range kinds {
					tryBytes(k, append([]byte{}, v...))
				}
			}
		}
		for i, f := range []func(){func() { numbers(kinds[0]) }, func() { numbers(kinds[1]) }, func() { texts(kinds[0]) }, func() { texts(kinds[1]) }, distances, sorting, lists, again} {
			if t.Mine(i + 1) {
				f()
			}
		}
		t.Sample(map[string]interface{}{"byte values": len(vs), "numbers": 903, "rings": "every pair on rings of 1..24, 38 boundary values on the ring of 2^256"})
	})
}
