//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
)

// histories walks all sequences of signing, decoding into, giving a signature to and verifying one offer, and one part.
func histories(depth int) {
	a := terms{id(1), []string{id(3), id(4)}, 5, 1 << 40, 7}
	b := terms{id(1), []string{id(3), id(4)}, 6, 1 << 40, 7}
	c := terms{id(1), []string{id(3), id(5)}, 5, 1 << 40, 7}
	sign := func(m terms, k int) *cidoffer.CIDOffer {
		o := m.make()
		if err := o.Sign(ks[k].priv, fcrcrypto.InitialKeyVersion()); err != nil {
			panic(err)
		}
		return o
	}
	as := func(o *cidoffer.CIDOffer) []byte {
		r, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		return r
	}
	type made struct {
		name string
		m    terms
		k    int // who signed; -1: nobody
		sig  string
		raw  []byte
	}
	var all []made
	add := func(name string, m terms, k int, o *cidoffer.CIDOffer) {
		all = append(all, made{name, m, k, o.GetSignature(), as(o)})
	}
	a0, b0 := sign(a, 0), sign(b, 0)
	add("A signed by 0", a, 0, a0)
	add("A signed by 1", a, 1, sign(a, 1))
	add("B signed by 0", b, 0, b0)
	f := b.make()
	f.SetSignature(a0.GetSignature())
	add("B with the signature of A", b, -1, f)
	g := c.make()
	g.SetSignature(a0.GetSignature())
	add("C with the signature of A", c, -1, g)
	sigs := []struct {
		name string
		m    terms
		k    int
		sig  string
	}{{"A by 0", a, 0, a0.GetSignature()}, {"A by 1", a, 1, all[1].sig}, {"B by 0", b, 0, b0.GetSignature()}, {"none", a, -1, ""}}
	var digests []string
	for _, m := range []terms{a, b, c} {
		digests = append(digests, fmt.Sprint(m.make().GetMessageDigest()))
	}
	digest := func(m terms) string {
		for i, x := range []terms{a, b, c} {
			if fmt.Sprint(x) == fmt.Sprint(m) {
				return digests[i]
			}
		}
		return ""
	}

	vhist.Walk(t, "an offer", depth, func() []vhist.Op {
		o := a.make()
		m, by := a, -1
		signed := a // what the signature is of
		var ops []vhist.Op
		op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
		holds := func(k int) bool { return by == k && fmt.Sprint(m) == fmt.Sprint(signed) }
		for k := 0; k < 2; k++ {
			k := k
			op(fmt.Sprintf("sign with %d", k), func() (string, string) {
				if err := o.Sign(ks[k].priv, fcrcrypto.InitialKeyVersion()); err != nil {
					return "sign", err.Error()
				}
				by, signed = k, m
				return "", ""
			})
			op(fmt.Sprintf("verify with %d", k), func() (string, string) {
				if ok := o.Verify(ks[k].pub) == nil; ok != holds(k) {
					return "history", fmt.Sprintf("verifies: %v", ok)
				}
				return "", ""
			})
		}
		for _, s := range sigs {
			s := s
			op("set signature "+s.name, func() (string, string) {
				o.SetSignature(s.sig)
				by, signed = s.k, s.m
				return "", ""
			})
		}
		for _, s := range all {
			s := s
			op("decode "+s.name, func() (string, string) {
				if err := json.Unmarshal(s.raw, o); err != nil {
					return "decode", err.Error()
				}
				m, by, signed = s.m, s.k, s.m
				return "", ""
			})
		}
		op("look", func() (string, string) {
			if fmt.Sprint(of(o)) != fmt.Sprint(m) {
				return "history-terms", fmt.Sprintf("it says %v instead of %v", of(o), m)
			}
			if fmt.Sprint(o.GetMessageDigest()) != digest(m) {
				return "history-digest", "the digest is another offer's"
			}
			return "", ""
		})
		op("cut a part", func() (string, string) {
			x, _ := cid.NewContentIDFromHexString(m.CIDs[1])
			p, err := o.GenerateSubCIDOffer(x)
			if err != nil {
				return "part", err.Error()
			}
			for k := 0; k < 2; k++ {
				if ok := partHolds(p, ks[k].pub); ok != holds(k) {
					return "history-part", fmt.Sprintf("its part verifies with %d: %v", k, ok)
				}
			}
			return "", ""
		})
		return ops
	})

	cut := func(o *cidoffer.CIDOffer, n int) *cidoffer.SubCIDOffer {
		x := o.GetCIDs()[n]
		p, err := o.GenerateSubCIDOffer(&x)
		if err != nil {
			panic(err)
		}
		return p
	}
	type part struct {
		name   string
		by     int // under whose key the signature verifies
		proves bool
		raw    []byte
	}
	var parts []part
	addPart := func(name string, by int, proves bool, p *cidoffer.SubCIDOffer) {
		raw, err := json.Marshal(p)
		if err != nil {
			panic(err)
		}
		parts = append(parts, part{name, by, proves, raw})
	}
	p := cut(a0, 0)
	addPart("the first of A by 0", 0, true, p)
	addPart("the second of A by 1", 1, true, cut(sign(a, 1), 1))
	addPart("the first of B by 0", 0, true, cut(b0, 0))
	addPart("the first of A with another price", -1, true, cidoffer.NewSubCIDOffer(p.GetProviderID(), p.GetSubCID(), p.GetMerkleRoot(), p.GetMerkleProof(), 4, p.GetExpiry(), p.GetQoS(), p.GetSignature()))
	addPart("the first of A with the proof of the second", 0, false, cidoffer.NewSubCIDOffer(p.GetProviderID(), p.GetSubCID(), p.GetMerkleRoot(), cut(a0, 1).GetMerkleProof(), p.GetPrice(), p.GetExpiry(), p.GetQoS(), p.GetSignature()))
	addPart("another content with the proof of the first of A", 0, false, cidoffer.NewSubCIDOffer(p.GetProviderID(), cut(sign(c, 0), 1).GetSubCID(), p.GetMerkleRoot(), p.GetMerkleProof(), p.GetPrice(), p.GetExpiry(), p.GetQoS(), p.GetSignature()))
	vhist.Walk(t, "a part", depth+1, func() []vhist.Op {
		var o cidoffer.SubCIDOffer
		now := parts[0]
		if err := json.Unmarshal(now.raw, &o); err != nil {
			panic(err)
		}
		var ops []vhist.Op
		op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
		for _, s := range parts {
			s := s
			op("decode "+s.name, func() (string, string) {
				if err := json.Unmarshal(s.raw, &o); err != nil {
					return "decode", err.Error()
				}
				now = s
				return "", ""
			})
		}
		for k := 0; k < 2; k++ {
			k := k
			op(fmt.Sprintf("verify with %d", k), func() (string, string) {
				if ok := o.Verify(ks[k].pub) == nil; ok != (now.by == k) {
					return "history", fmt.Sprintf("verifies: %v", ok)
				}
				return "", ""
			})
		}
		op("check membership", func() (string, string) {
			if ok := o.VerifyMerkleProof() == nil; ok != now.proves {
				return "history-membership", fmt.Sprintf("passes: %v", ok)
			}
			return "", ""
		})
		op("encode", func() (string, string) {
			if b, err := json.Marshal(&o); err != nil || string(b) != string(now.raw) {
				return "history-terms", fmt.Sprintf("encodes to %s (%v) instead of %s", b, err, now.raw)
			}
			return "", ""
		})
		return ops
	})
}
