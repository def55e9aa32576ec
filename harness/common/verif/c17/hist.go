//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/verif/codecs"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
)

// histories walks all sequences of signing, decoding into and verifying one message.
func histories(depth int, ks []key) {
	type made struct {
		name string
		what string // the message without its signature
		by   int    // under whose key its signature verifies
		raw  []byte
	}
	sign := func(x *m.FCRMessage, k int) *m.FCRMessage {
		if err := x.Sign(ks[k].priv, fcrcrypto.InitialKeyVersion()); err != nil {
			panic(err)
		}
		return x
	}
	bare := func(x *m.FCRMessage) string {
		return fmt.Sprint(x.GetMessageType(), x.GetProtocolVersion(), x.GetProtocolSupported(), string(x.GetMessageBody()))
	}
	a, b := m.CreateFCRMessage(5, []byte(`{"a":1}`)), m.CreateFCRMessage(5, []byte(`{"a":2}`))
	var all []made
	add := func(name string, x *m.FCRMessage, by int) {
		w, err := x.FCRMsgToBytes()
		if err != nil {
			panic(err)
		}
		all = append(all, made{name, bare(x), by, w})
	}
	with := func(x *m.FCRMessage, f func(f *fields)) *m.FCRMessage {
		w, _ := x.FCRMsgToBytes()
		var v fields
		if err := json.Unmarshal(w, &v); err != nil {
			panic(err)
		}
		f(&v)
		w, _ = json.Marshal(v)
		return read(w)
	}
	add("A unsigned", a, -1)
	add("A signed by 0", sign(a, 0), 0)
	s := a.GetSignature()
	add("B with the signature of A", with(b, func(f *fields) { f.S = s }), -1)
	add("A of another type with the signature of A", with(a, func(f *fields) { f.T = 6 }), -1)
	add("A of another version with the signature of A", with(a, func(f *fields) { f.V = 7 }), -1)
	add("B signed by 1", sign(b, 1), 1)
	vhist.Walk(t, "a message", depth, func() []vhist.Op {
		x := m.CreateFCRMessage(5, []byte(`{"a":1}`))
		what, by := bare(x), -1
		var ops []vhist.Op
		op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
		for k := 0; k < 2; k++ {
			k := k
			op(fmt.Sprintf("sign with %d", k), func() (string, string) {
				by = k
				if err := x.Sign(ks[k].priv, fcrcrypto.DecodeKeyVersion(uint32(k+1))); err != nil {
					return "sign", err.Error()
				}
				return "", ""
			})
			op(fmt.Sprintf("verify with %d", k), func() (string, string) {
				if ok := x.Verify(ks[k].pub) == nil; ok != (by == k) {
					return "history", fmt.Sprintf("verifies: %v", ok)
				}
				return "", ""
			})
		}
		for _, s := range all {
			s := s
			op("decode "+s.name, func() (string, string) {
				if err := json.Unmarshal(s.raw, x); err != nil {
					return "wire", err.Error()
				}
				what, by = s.what, s.by
				return "", ""
			})
		}
		op("send", func() (string, string) {
			w, err := x.FCRMsgToBytes()
			y := read(w)
			if err != nil || y == nil || codecs.Show(y) != codecs.Show(x) || bare(y) != what {
				return "wire", "it does not cross the wire"
			}
			for k := 0; k < 2; k++ {
				if ok := y.Verify(ks[k].pub) == nil; ok != (by == k) {
					return "history", fmt.Sprintf("sent, it verifies with %d: %v", k, ok)
				}
			}
			return "", ""
		})
		return ops
	})
}
