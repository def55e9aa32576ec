//go:build go1.21

// C18: offers and their parts: every term, every alteration, every swap.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verif/mtree"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	t.Violate(key, d, d)
}

func step(name string, f func()) {
	t.Case(func() string { return name })
	t.Eval()
	t.Distinct(name)
	t.Try("crash", name, f)
}

// terms of an offer, in plain values
type terms struct {
	Provider string
	CIDs     []string
	Price    uint64
	Expiry   int64
	QoS      uint64
}

func (m terms) String() string {
	s := ""
	for _, c := range m.CIDs {
		s += c[:4] + ".." + c[60:] + " "
	}
	return fmt.Sprintf("{%s..%s: [%s] %d %d %d}", m.Provider[:4], m.Provider[60:], strings.TrimSpace(s), m.Price, m.Expiry, m.QoS)
}

func (m terms) leaves() (r [][]byte) {
	for _, c := range m.CIDs {
		b, _ := hex.DecodeString(c)
		r = append(r, b)
	}
	return
}

func (m terms) clone() terms {
	m.CIDs = append([]string{}, m.CIDs...)
	return m
}

func (m terms) make() *cidoffer.CIDOffer {
	p, err := nodeid.NewNodeIDFromHexString(m.Provider)
	if err != nil {
		panic(err)
	}
	var cs []cid.ContentID
	for _, c := range m.CIDs {
		x, err := cid.NewContentIDFromHexString(c)
		if err != nil {
			panic(err)
		}
		cs = append(cs, *x)
	}
	o, err := cidoffer.NewCIDOffer(p, cs, m.Price, m.Expiry, m.QoS)
	if err != nil {
		bad("refused", "no offer made of %v: %v", m, err)
		return nil
	}
	return o
}

func of(o *cidoffer.CIDOffer) terms {
	m := terms{Provider: o.GetProviderID().ToString(), Price: o.GetPrice(), Expiry: o.GetExpiry(), QoS: o.GetQoS()}
	for _, c := range o.GetCIDs() {
		m.CIDs = append(m.CIDs, c.ToString())
	}
	return m
}

func ofPart(o *cidoffer.SubCIDOffer) terms {
	return terms{o.GetProviderID().ToString(), []string{o.GetSubCID().ToString()}, o.GetPrice(), o.GetExpiry(), o.GetQoS()}
}

func id(n int64) string { return fmt.Sprintf("%064x", n) }

type key struct{ priv, pub *fcrcrypto.KeyPair }

func keys() (r []key) {
	for _, p := range []string{strings.Repeat("00", 31) + "01", "5ed053eab6fdf18c03954373ff7f89089992017d56beb8b05305b19800d6afe0", strings.Repeat("7f", 32)} {
		k, err := fcrcrypto.DecodePrivateKey("01" + p)
		if err != nil {
			panic(err)
		}
		s, err := k.EncodePublicKey()
		if err != nil {
			panic(err)
		}
		pub, err := fcrcrypto.DecodePublicKey(s)
		if err != nil {
			panic(err)
		}
		r = append(r, key{k, pub})
	}
	return
}

var ks []key
var full = strings.Repeat("f", 64)

// domain lists the offers examined
func domain() (r []terms) {
	a, b, c, d := id(1), id(0), full, "80"+strings.Repeat("00", 31)
	var lists [][]string
	for _, n := range []int{1, 2, 3} {
		idx := make([]int, n)
		for {
			l := []string{}
			for _, i := range idx {
				l = append(l, []string{a, b, c}[i])
			}
			lists = append(lists, l)
			k := n - 1
			for k >= 0 && idx[k] == 2 {
				idx[k] = 0
				k--
			}
			if k < 0 {
				break
			}
			idx[k]++
		}
	}
	lists = append(lists, []string{a, b, c, d}, []string{d, c, b, a}, []string{a, b, c, d, id(7)})
	long := []string{}
	for i := int64(1); i <= 9; i++ {
		long = append(long, id(i*257))
	}
	lists = append(lists, long[:6], long[:7], long[:8], long)
	prices := []uint64{0, 1, 42, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64}
	expiries := []int64{math.MinInt64, -1, 0, 1, 1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64}
	provs := []string{id(1), id(0), full, id(2)}
	for i, l := range lists {
		r = append(r, terms{provs[i%len(provs)], l, prices[i%len(prices)], expiries[i%len(expiries)], prices[(i+3)%len(prices)]})
	}
	for _, p := range provs {
		for _, x := range prices {
			for _, e := range expiries {
				if t.Thorough() {
					for _, q := range prices {
						r = append(r, terms{p, []string{a}, x, e, q}, terms{p, []string{a, b}, x, e, q})
					}
				} else {
					r = append(r, terms{p, []string{a}, x, e, 1}, terms{p, []string{a, c}, 1, e, x})
				}
			}
		}
	}
	seen := map[string]bool{}
	k := 0
	for _, m := range r {
		if !seen[m.String()] {
			seen[m.String()] = true
			r[k] = m
			k++
		}
	}
	return r[:k]
}

// altered lists the offers that differ from m in one term
func altered(m terms) (r []struct {
	what string
	m    terms
}) {
	add := func(what string, f func(m *terms)) {
		c := m.clone()
		f(&c)
		r = append(r, struct {
			what string
			m    terms
		}{what, c})
	}
	flip := func(s string, i int, x byte) string {
		b, _ := hex.DecodeString(s)
		b[i] ^= x
		return hex.EncodeToString(b)
	}
	for i := 0; i < 32; i++ {
		i := i
		add(fmt.Sprintf("provider byte %d", i), func(m *terms) { m.Provider = flip(m.Provider, i, 1) })
	}
	for k := 0; k < 64; k++ {
		k := k
		add(fmt.Sprintf("price bit %d", k), func(m *terms) { m.Price ^= 1 << k })
		add(fmt.Sprintf("expiry bit %d", k), func(m *terms) { m.Expiry ^= 1 << k })
		add(fmt.Sprintf("quality bit %d", k), func(m *terms) { m.QoS ^= 1 << k })
	}
	add("price + 1", func(m *terms) { m.Price++ })
	add("expiry + 1", func(m *terms) { m.Expiry++ })
	add("quality + 1", func(m *terms) { m.QoS++ })
	if m.Price != m.QoS {
		add("price and quality swapped", func(m *terms) { m.Price, m.QoS = m.QoS, m.Price })
	}
	for k := range m.CIDs {
		k := k
		for i := 0; i < 32; i += 1 {
			i := i
			if i%8 == 0 || i == 31 || len(m.CIDs) == 1 {
				add(fmt.Sprintf("CID %d byte %d", k, i), func(m *terms) { m.CIDs[k] = flip(m.CIDs[k], i, 0x80) })
			}
		}
		if len(m.CIDs) > 1 {
			add(fmt.Sprintf("CID %d removed", k), func(m *terms) { m.CIDs = append(m.CIDs[:k], m.CIDs[k+1:]...) })
		}
		add(fmt.Sprintf("CID %d doubled", k), func(m *terms) { m.CIDs = append(m.CIDs[:k+1], append([]string{}, m.CIDs[k:]...)...) })
		for j := k + 1; j < len(m.CIDs); j++ {
			j := j
			if m.CIDs[k] != m.CIDs[j] {
				add(fmt.Sprintf("CIDs %d and %d swapped", k, j), func(m *terms) { m.CIDs[k], m.CIDs[j] = m.CIDs[j], m.CIDs[k] })
			}
		}
	}
	add("a CID added", func(m *terms) { m.CIDs = append(m.CIDs, id(99)) })
	add("the first CID added at the end", func(m *terms) { m.CIDs = append(m.CIDs, m.CIDs[0]) })
	lv := mtree.Levels(m.leaves())
	add("the CIDs replaced by inner nodes", func(m *terms) {
		m.CIDs = nil
		for _, n := range lv[1] {
			m.CIDs = append(m.CIDs, hex.EncodeToString(n))
		}
	})
	return
}

type wire struct {
	ProviderID string   `json:"provider_id"`
	CIDs       []string `json:"cids"`
	Price      uint64   `json:"price"`
	Expiry     int64    `json:"expiry"`
	QoS        uint64   `json:"qos"`
	Signature  string   `json:"signature"`
}

func over(o *cidoffer.CIDOffer) *cidoffer.CIDOffer {
	b, err := json.Marshal(o)
	if err != nil {
		bad("encode", "%v: %v", of(o), err)
		return nil
	}
	var r cidoffer.CIDOffer
	if err := json.Unmarshal(b, &r); err != nil {
		bad("decode", "%v: %v", of(o), err)
		return nil
	}
	return &r
}

func overPart(o *cidoffer.SubCIDOffer) *cidoffer.SubCIDOffer {
	b, err := json.Marshal(o)
	if err != nil {
		bad("encode", "%v: %v", ofPart(o), err)
		return nil
	}
	var r cidoffer.SubCIDOffer
	if err := json.Unmarshal(b, &r); err != nil {
		bad("decode", "%v: %v", ofPart(o), err)
		return nil
	}
	return &r
}

func partHolds(p *cidoffer.SubCIDOffer, k *fcrcrypto.KeyPair) bool {
	return p != nil && p.Verify(k) == nil && p.VerifyMerkleProof() == nil
}

// sigs lists alterations of a signature's signed value
func sigs(s string) (r []string) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return
	}
	// 4 bytes of version, 64 of r and s, 1 of recovery
	for i := len(b) - 65; i >= 0 && i < len(b)-1; i++ {
		for _, x := range []byte{1, 0x80} {
			c := append([]byte{}, b...)
			c[i] ^= x
			r = append(r, hex.EncodeToString(c))
		}
	}
	return append(r, "", s[:len(s)-4], s[2:], "zz")
}

func whole(m terms, k key, deep bool) {
	o := m.make()
	if o == nil {
		return
	}
	if o.Verify(k.pub) == nil {
		bad("unsigned", "an unsigned offer verifies: %v", m)
	}
	if err := o.Sign(k.priv, fcrcrypto.InitialKeyVersion()); err != nil {
		bad("sign", "%v: %v", m, err)
		return
	}
	digest := o.GetMessageDigest()
	for i, c := range []*cidoffer.CIDOffer{o, over(o)} {
		if c == nil {
			return
		}
		if of(c).String() != m.String() || fmt.Sprint(of(c)) != fmt.Sprint(m) {
			bad("terms", "an offer of %v says %v (decoded: %v)", m, of(c), i == 1)
		}
		for n := 0; n < 2; n++ {
			if err := c.Verify(k.pub); err != nil {
				bad("genuine", "a genuine offer %v does not verify (decoded: %v): %v", m, i == 1, err)
			}
		}
		if c.GetMessageDigest() != digest {
			bad("digest", "digest of %v changes (decoded: %v)", m, i == 1)
		}
		for _, z := range ks {
			if z.pub != k.pub && c.Verify(z.pub) == nil {
				bad("other-key", "%v verifies under another key", m)
			}
		}
		for n, h := range m.CIDs {
			x, _ := cid.NewContentIDFromHexString(h)
			p, err := c.GenerateSubCIDOffer(x)
			if err != nil || p == nil {
				bad("part", "no part %d of %v: %v", n, m, err)
				continue
			}
			for q, z := range []*cidoffer.SubCIDOffer{p, overPart(p)} {
				t.EvalN(1)
				if z == nil {
					continue
				}
				w := m.clone()
				w.CIDs = []string{h}
				if fmt.Sprint(ofPart(z)) != fmt.Sprint(w) || z.GetSignature() != c.GetSignature() {
					bad("part-terms", "part %d of %v says %v (decoded: %v)", n, m, ofPart(z), q == 1)
				}
				if !partHolds(z, k.pub) {
					bad("part-genuine", "part %d of %v does not verify (decoded: %v)", n, m, q == 1)
				}
				for _, y := range ks {
					if y.pub != k.pub && partHolds(z, y.pub) {
						bad("part-other-key", "part %d of %v verifies under another key", n, m)
					}
				}
			}
		}
		// a CID the offer does not hold
		for _, h := range []string{id(12345), strings.Repeat("ab", 32)} {
			x, _ := cid.NewContentIDFromHexString(h)
			if p, err := c.GenerateSubCIDOffer(x); err == nil && partHolds(p, k.pub) {
				bad("part-absent", "%v gives a part for a CID it does not hold", m)
			}
		}
	}
	if !deep {
		return
	}
	for _, v := range altered(m) {
		if fmt.Sprint(v.m) == fmt.Sprint(m) {
			continue
		}
		t.EvalN(1)
		t.Distinct(m.String() + v.what)
		// made anew, and on the wire
		a := v.m.make()
		if a == nil {
			continue
		}
		a.SetSignature(o.GetSignature())
		b, _ := json.Marshal(wire{v.m.Provider, v.m.CIDs, v.m.Price, v.m.Expiry, v.m.QoS, o.GetSignature()})
		var w cidoffer.CIDOffer
		if err := json.Unmarshal(b, &w); err != nil {
			bad("decode", "%v: %v", v.m, err)
			continue
		}
		if a.GetMessageDigest() == digest || w.GetMessageDigest() == digest {
			bad("digest-same", "%v with %s has the same digest", m, v.what)
		}
		for i, c := range []*cidoffer.CIDOffer{a, &w} {
			if c.Verify(k.pub) == nil {
				switch {
				case v.m.Provider == m.Provider && v.m.Price == m.Price && v.m.Expiry == m.Expiry && v.m.QoS == m.QoS && mtree.Padded(v.m.leaves()) == mtree.Padded(m.leaves()):
					bad("altered:last-leaves-repeated", "%v with %s still verifies", m, v.what)
				case v.what == "the CIDs replaced by inner nodes":
					bad("altered:inner-nodes-as-CIDs", "%v with %s still verifies", m, v.what)
				default:
					bad("altered", "%v with %s still verifies (decoded: %v)", m, v.what, i == 1)
				}
			}
		}
		// the parts
		for n, h := range m.CIDs {
			if n > 2 {
				break
			}
			if len(v.m.CIDs) != len(m.CIDs) || v.m.CIDs[n] != h {
				continue
			}
			x, _ := cid.NewContentIDFromHexString(h)
			p, err := o.GenerateSubCIDOffer(x)
			if err != nil {
				continue
			}
			vp, _ := nodeid.NewNodeIDFromHexString(v.m.Provider)
			proof := p.GetMerkleProof()
			y := cidoffer.NewSubCIDOffer(vp, x, p.GetMerkleRoot(), proof, v.m.Price, v.m.Expiry, v.m.QoS, p.GetSignature())
			if strings.HasPrefix(v.what, "CID") || strings.HasPrefix(v.what, "a CID") {
				continue
			}
			for q, z := range []*cidoffer.SubCIDOffer{y, overPart(y)} {
				if partHolds(z, k.pub) {
					bad("part-altered", "part %d of %v with %s still verifies (decoded: %v)", n, m, v.what, q == 1)
				}
			}
		}
	}
	for _, s := range sigs(o.GetSignature()) {
		c := over(o)
		c.SetSignature(s)
		t.EvalN(1)
		if c.Verify(k.pub) == nil {
			bad("signature", "%v verifies with signature %s instead of %s", m, s, o.GetSignature())
		}
		x, _ := cid.NewContentIDFromHexString(m.CIDs[0])
		p, _ := o.GenerateSubCIDOffer(x)
		z := cidoffer.NewSubCIDOffer(p.GetProviderID(), x, p.GetMerkleRoot(), p.GetMerkleProof(), m.Price, m.Expiry, m.QoS, s)
		if partHolds(z, k.pub) {
			bad("part-signature", "part of %v verifies with signature %s instead of %s", m, s, o.GetSignature())
		}
	}
	// a genuine proof for other CIDs, the root altered
	x, _ := cid.NewContentIDFromHexString(m.CIDs[0])
	p, _ := o.GenerateSubCIDOffer(x)
	root := p.GetMerkleRoot()
	for i := range root {
		for _, r := range []string{"0", "f", ""} {
			s := root[:i] + r + root[i+1:]
			if s == root {
				continue
			}
			z := cidoffer.NewSubCIDOffer(p.GetProviderID(), x, s, p.GetMerkleProof(), m.Price, m.Expiry, m.QoS, p.GetSignature())
			t.EvalN(1)
			if partHolds(z, k.pub) {
				bad("part-root", "part of %v verifies with root %s", m, s)
			}
		}
	}
	if z := cidoffer.NewSubCIDOffer(p.GetProviderID(), x, root, &fcrmerkletree.FCRMerkleProof{}, m.Price, m.Expiry, m.QoS, p.GetSignature()); partHolds(z, k.pub) {
		bad("part-proof", "part of %v verifies without a proof", m)
	}
	rb, _ := hex.DecodeString(root)
	rc, _ := cid.NewContentIDFromBytes(rb)
	if z := cidoffer.NewSubCIDOffer(p.GetProviderID(), rc, root, &fcrmerkletree.FCRMerkleProof{}, m.Price, m.Expiry, m.QoS, p.GetSignature()); partHolds(z, k.pub) {
		bad("part:inner-node-as-CID", "a part of %v for its own root verifies", m)
	}
}

// mixed takes every component of a part from one of two offers
func mixed(a, b terms, k key) {
	var parts [2]*cidoffer.SubCIDOffer
	for i, m := range []terms{a, b} {
		o := m.make()
		if o.Sign(k.priv, fcrcrypto.InitialKeyVersion()) != nil {
			return
		}
		x, _ := cid.NewContentIDFromHexString(m.CIDs[len(m.CIDs)-1])
		p, err := o.GenerateSubCIDOffer(x)
		if err != nil {
			return
		}
		parts[i] = p
	}
	for bits := 0; bits < 256; bits++ {
		g := func(i int) *cidoffer.SubCIDOffer { return parts[bits>>i&1] }
		proofJSON := func(p *cidoffer.SubCIDOffer) string { b, _ := json.Marshal(p.GetMerkleProof()); return string(b) }
		same := func(w *cidoffer.SubCIDOffer) bool {
			return g(0).GetProviderID().ToString() == w.GetProviderID().ToString() && g(1).GetSubCID().ToString() == w.GetSubCID().ToString() &&
				g(2).GetMerkleRoot() == w.GetMerkleRoot() && proofJSON(g(3)) == proofJSON(w) && g(4).GetPrice() == w.GetPrice() &&
				g(5).GetExpiry() == w.GetExpiry() && g(6).GetQoS() == w.GetQoS()
		}
		// signatures are random: any signature of the same terms and root will do
		want := same(parts[bits>>7&1]) || same(parts[0]) && parts[0].GetMerkleRoot() == parts[1].GetMerkleRoot() && fmt.Sprint(a.Provider, a.Price, a.Expiry, a.QoS) == fmt.Sprint(b.Provider, b.Price, b.Expiry, b.QoS)
		z := cidoffer.NewSubCIDOffer(g(0).GetProviderID(), g(1).GetSubCID(), g(2).GetMerkleRoot(), g(3).GetMerkleProof(), g(4).GetPrice(), g(5).GetExpiry(), g(6).GetQoS(), g(7).GetSignature())
		t.EvalN(1)
		got := partHolds(z, k.pub)
		// by the rules: signed terms and a proof that holds
		if got && !want {
			w, ok := mtree.Parse([]byte(proofJSON(g(3))))
			s := parts[bits>>7&1]
			leaf := g(1).GetSubCID().ToBytes()
			if !ok || !w.Holds(leaf, s.GetMerkleRoot()) || g(2).GetMerkleRoot() != s.GetMerkleRoot() || g(0).GetProviderID().ToString() != s.GetProviderID().ToString() ||
				g(4).GetPrice() != s.GetPrice() || g(5).GetExpiry() != s.GetExpiry() || g(6).GetQoS() != s.GetQoS() {
				bad("mixed", "a part mixed from %v and %v by %08b verifies", a, b, bits)
			}
		}
		if want && !got {
			bad("mixed-genuine", "a part of %v and %v by %08b does not verify", a, b, bits)
		}
	}
}

func expiry() {
	now := time.Now().Unix()
	for _, v := range []struct {
		e int64
		x bool
	}{{math.MinInt64, true}, {-1 << 40, true}, {-1, true}, {0, true}, {1, true}, {now - 86400, true}, {now - 5, true}, {now + 3600, false}, {now + 1<<31, false}, {1 << 33, false}, {1 << 40, false},
		{253402300799, false}, {253402300800, false}, {1 << 53, false}, {1 << 62, false}, {math.MaxInt64 - 62135596801, false}, {math.MaxInt64 - 62135596800, false}, {math.MaxInt64 - 62135596799, false}, {math.MaxInt64, false}} {
		m := terms{id(1), []string{id(5), id(6)}, 1, v.e, 1}
		o := m.make()
		if o.HasExpired() != v.x {
			bad("expired", "an offer with expiry %d is reported expired %v", v.e, !v.x)
		}
		x, _ := cid.NewContentIDFromHexString(id(5))
		p, err := o.GenerateSubCIDOffer(x)
		if err != nil || p.HasExpired() != v.x {
			bad("expired", "a part of an offer with expiry %d is reported expired %v", v.e, !v.x)
		}
	}
}

func main() {
	vh.Main(func(x *vh.T) {
		t = x
		ks = keys()
		if _, err := cidoffer.NewCIDOffer(mustNode(id(1)), nil, 1, 1, 1); err == nil {
			bad("empty", "an offer without CIDs is made")
		}
		step("expiry", expiry)
		ds := domain()
		t.Count("offers", len(ds))
		dig := map[[32]byte]string{}
		for _, m := range ds {
			m := m
			step("digest "+fmt.Sprint(m), func() {
				o := m.make()
				if o == nil {
					return
				}
				d := o.GetMessageDigest()
				w := [32]byte(d)
				if z, ok := dig[w]; ok && z != fmt.Sprint(m) {
					bad("digest-same", "%s and %v have the same digest", z, m)
				}
				dig[w] = fmt.Sprint(m)
				s := cidoffer.EncodeMessageDigest(d)
				if b := cidoffer.DecodeMessageDigest(s); b != d {
					bad("digest-text", "digest %x does not decode from its text %s", d, s)
				}
			})
		}
		for i, m := range ds {
			if !t.Mine(i) {
				continue
			}
			m := m
			deep := i < 46 || i%t.Pick(12, 5) == 0
			step(fmt.Sprintf("offer %v", m), func() { whole(m, ks[i%len(ks)], deep) })
			if t.Over() {
				t.NotExhaustive("deadline")
				return
			}
		}
		histories(t.Pick(4, 5))
		// all mixtures of two offers
		one := []string{id(1)}
		two := []string{id(1), id(2)}
		base := []terms{{id(1), one, 5, 1 << 40, 7}, {id(1), two, 5, 1 << 40, 7}, {id(2), two, 5, 1 << 40, 7}, {id(1), two, 6, 1 << 40, 7}, {id(1), two, 5, 1 << 41, 7}, {id(1), two, 5, 1 << 40, 8},
			{id(1), []string{id(2), id(1)}, 5, 1 << 40, 7}, {id(1), []string{id(3), id(1), id(2)}, 5, 1 << 40, 7}, {id(3), []string{id(3), id(4)}, 9, 1 << 39, 1}}
		n := 0
		for i := range base {
			for j := range base {
				n++
				if i == j || !t.Mine(n) {
					continue
				}
				a, b := base[i], base[j]
				step(fmt.Sprintf("mixed %v %v", a, b), func() { mixed(a, b, ks[0]) })
			}
		}
		t.Sample(map[string]interface{}{"offers": len(ds), "an offer": ds[len(ds)/2].String(), "alterations of it": len(altered(ds[len(ds)/2]))})
	})
}

func mustNode(h string) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(h)
	if err != nil {
		panic(err)
	}
	return n
}
