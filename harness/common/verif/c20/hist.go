//go:build go1.21

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
)

// histories walks all sequences of using one key pair, and one key version.
func histories(depth int, ks []key) {
	msgs := []string{"one", "two"}
	sigs := [2][2]string{}
	for k := range sigs {
		for i, x := range msgs {
			s, err := fcrcrypto.SignMessage(ks[k].k, fcrcrypto.DecodeKeyVersion(uint32(k)), []byte(x))
			if err != nil {
				panic(err)
			}
			sigs[k][i] = s
		}
	}
	hash := func(k int) string {
		p, err := fcrcrypto.DecodePublicKey(ks[k].pub)
		if err != nil {
			panic(err)
		}
		h, err := p.HashPublicKey()
		if err != nil {
			panic(err)
		}
		return hex.EncodeToString(h)
	}
	hashes := []string{hash(0), hash(1)}
	for _, private := range []bool{true, false} {
		private := private
		what := "a public key"
		if private {
			what = "a private key"
		}
		vhist.Walk(t, what, depth, func() []vhist.Op {
			var k *fcrcrypto.KeyPair
			var err error
			now := 0
			if private {
				k, err = fcrcrypto.DecodePrivateKey("01" + ks[0].priv)
			} else {
				k, err = fcrcrypto.DecodePublicKey(ks[0].pub)
			}
			if err != nil {
				panic(err)
			}
			var ops []vhist.Op
			op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
			for o := 0; o < 2; o++ {
				o := o
				op(fmt.Sprintf("verify the signatures of %d", o), func() (string, string) {
					for i := range msgs {
						for j := range msgs {
							ok, err := fcrcrypto.VerifyMessage(k, sigs[o][i], []byte(msgs[j]))
							if (ok && err == nil) != (o == now && i == j) {
								return "history", fmt.Sprintf("the signature of %q verifies for %q: %v", msgs[i], msgs[j], ok)
							}
						}
					}
					return "", ""
				})
				if !private {
					op(fmt.Sprintf("decode key %d", o), func() (string, string) {
						raw, _ := json.Marshal(ks[o].pub)
						if err := json.Unmarshal(raw, k); err != nil {
							return "decode-public", err.Error()
						}
						now = o
						return "", ""
					})
				}
			}
			op("encode the public key", func() (string, string) {
				if s, err := k.EncodePublicKey(); err != nil || s != ks[now].pub {
					return "history-public", fmt.Sprintf("encodes to %s (%v) instead of %s", s, err, ks[now].pub)
				}
				return "", ""
			})
			op("encode as JSON", func() (string, string) {
				raw, err := json.Marshal(k)
				if err != nil || string(raw) != `"`+ks[now].pub+`"` {
					return "history-public", fmt.Sprintf("encodes to %s (%v)", raw, err)
				}
				return "", ""
			})
			op("hash", func() (string, string) {
				if h, err := k.HashPublicKey(); err != nil || hex.EncodeToString(h) != hashes[now] {
					return "history-public", fmt.Sprintf("hashes to %x (%v)", h, err)
				}
				return "", ""
			})
			if private {
				op("encode the private key", func() (string, string) {
					if s := k.EncodePrivateKey(); s != "01"+ks[0].priv {
						return "history-private", "encodes to " + s
					}
					if s, err := k.EncodeRawPrivateKey(); err != nil || s != ks[0].priv {
						return "history-private", "encodes raw to " + s
					}
					return "", ""
				})
				for i := range msgs {
					i := i
					op("sign "+msgs[i], func() (string, string) {
						s, err := fcrcrypto.SignMessage(k, fcrcrypto.DecodeKeyVersion(9), []byte(msgs[i]))
						if err != nil {
							return "history", err.Error()
						}
						p, _ := fcrcrypto.DecodePublicKey(ks[0].pub)
						for j := range msgs {
							if ok, err := fcrcrypto.VerifyMessage(p, s, []byte(msgs[j])); (ok && err == nil) != (i == j) {
								return "history", fmt.Sprintf("the signature made verifies for %q: %v", msgs[j], ok)
							}
						}
						return "", ""
					})
				}
			}
			return ops
		})
	}
	vhist.Walk(t, "a key version", depth+1, func() []vhist.Op {
		v := fcrcrypto.InitialKeyVersion()
		w := uint32(1)
		first := fcrcrypto.InitialKeyVersion()
		w0 := first.EncodeKeyVersion()
		w = w0
		var ops []vhist.Op
		op := func(name string, f func() (string, string)) { ops = append(ops, vhist.Op{Name: name, Do: f}) }
		look := func() (string, string) {
			if v.EncodeKeyVersion() != w || !v.EqualsRaw(w) || v.NotEqualsRaw(w) || v.Equals(first) != (w == w0) || first.EncodeKeyVersion() != w0 {
				return "history-version", fmt.Sprintf("it is %d, should be %d; the first is %d", v.EncodeKeyVersion(), w, first.EncodeKeyVersion())
			}
			return "", ""
		}
		op("take the next", func() (string, string) {
			old := v
			v = v.NextKeyVersion()
			if old.EncodeKeyVersion() != w {
				return "history-version", "taking the next one changed the old one"
			}
			w++
			return look()
		})
		op("make the next", func() (string, string) {
			if n := v.NextKeyVersion(); n.EncodeKeyVersion() != w+1 {
				return "history-version", fmt.Sprintf("next is %d", n.EncodeKeyVersion())
			}
			return look()
		})
		op("the initial", func() (string, string) { v = fcrcrypto.InitialKeyVersion(); w = w0; return look() })
		op("the last", func() (string, string) { v = fcrcrypto.DecodeKeyVersion(1<<32 - 1); w = 1<<32 - 1; return look() })
		op("over the wire", func() (string, string) {
			x, err := fcrcrypto.DecodeKeyVersionFromBytes(v.EncodeKeyVersionAsBytes())
			if err != nil {
				return "history-version", err.Error()
			}
			v = x
			return look()
		})
		return ops
	})
}
