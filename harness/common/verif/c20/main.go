//go:build go1.21

// C20: keys, key versions and signatures over every single alteration.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

const order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"

type key struct {
	priv string // raw hex
	k    *fcrcrypto.KeyPair
	pub  string
}

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	t.Violate(key, d, d)
}

func step(name string, f func()) {
	t.Case(func() string { return name })
	t.Eval()
	t.Distinct(name)
	t.Try("crash", name, f)
}

func dec(h string) []byte { b, _ := hex.DecodeString(h); return b }

func keys() []key {
	one := strings.Repeat("00", 31) + "01"
	ks := []string{one, strings.Repeat("00", 30) + "0100", order[:63] + "0", strings.Repeat("7f", 32), "5ed053eab6fdf18c03954373ff7f89089992017d56beb8b05305b19800d6afe0", "00" + strings.Repeat("ab", 31)}
	var r []key
	for _, p := range ks {
		k, err := fcrcrypto.DecodePrivateKey("01" + p)
		if err != nil {
			bad("decode-private", "valid private key %s: %v", p, err)
			continue
		}
		pub, err := k.EncodePublicKey()
		if err != nil {
			bad("encode-public", "%s: %v", p, err)
			continue
		}
		r = append(r, key{p, k, pub})
	}
	for i := 0; i < 3; i++ {
		k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			bad("generate", "%v", err)
			continue
		}
		pub, _ := k.EncodePublicKey()
		e := k.EncodePrivateKey()
		r = append(r, key{e[2:], k, pub})
	}
	b, err := fcrcrypto.GenerateBlockchainKeyPair()
	if err == nil {
		pub, _ := b.EncodePublicKey()
		r = append(r, key{b.EncodePrivateKey()[2:], b, pub})
	}
	return r
}

// inOrder reports whether raw private key bytes are in the range of the curve.
func inOrder(b []byte) bool {
	return len(b) == 32 && bytes.Compare(b, make([]byte, 32)) > 0 && bytes.Compare(b, dec(order)) < 0
}

func wantPriv(enc string) bool {
	b, err := hex.DecodeString(enc)
	return err == nil && len(b) == 33 && b[0] == 1 && inOrder(b[1:])
}

// malformed for certain: not hex, wrong length, wrong algorithm
func malformedPub(enc string) bool {
	b, err := hex.DecodeString(enc)
	return err != nil || len(b) != 66 || b[0] != 1
}

func checkPriv(enc string) {
	k, err := fcrcrypto.DecodePrivateKey(enc)
	if wantPriv(enc) != (err == nil) || err == nil && k == nil {
		bad("decode-private", "DecodePrivateKey(%q): %v", enc, err)
		return
	}
	if err == nil {
		if g := k.EncodePrivateKey(); g != strings.ToLower(enc) {
			bad("private-round-trip", "%q became %q", enc, g)
		}
		if _, err := k.EncodePublicKey(); err != nil {
			bad("encode-public", "of %q: %v", enc, err)
		}
	}
	// the raw form is the same without the algorithm
	if len(enc) >= 2 {
		raw := enc[2:]
		b, herr := hex.DecodeString(raw)
		want := herr == nil && inOrder(b)
		k, err := fcrcrypto.DecodeRawPrivateKey(raw)
		if want != (err == nil) {
			bad("decode-raw-private", "DecodeRawPrivateKey(%q): %v", raw, err)
		} else if want {
			if g, err := k.EncodeRawPrivateKey(); err != nil || g != strings.ToLower(raw) {
				bad("raw-private-round-trip", "%q became %q, %v", raw, g, err)
			}
		}
	}
}

func checkPub(enc string) {
	k, err := fcrcrypto.DecodePublicKey(enc)
	if malformedPub(enc) {
		if err == nil {
			bad("decode-public", "DecodePublicKey(%q) accepted", enc)
		}
		return
	}
	if err != nil {
		return // a text that is no point of the curve may be refused
	}
	g, err := k.EncodePublicKey()
	if err != nil || g != strings.ToLower(enc) {
		bad("public-round-trip", "%q became %q, %v", enc, g, err)
	}
	j, err := json.Marshal(k)
	var k2 fcrcrypto.KeyPair
	if err != nil || json.Unmarshal(j, &k2) != nil {
		bad("public-json", "%q: %s %v", enc, j, err)
		return
	}
	if g, err := k2.EncodePublicKey(); err != nil || g != strings.ToLower(enc) {
		bad("public-json", "%q became %q, %v", enc, g, err)
	}
}

// alterations of a text: every truncation, some extensions, every character
// replaced by each of a set, every character removed or doubled, neighbours swapped
func alterations(s string, f func(what, a string)) {
	for i := 0; i <= len(s); i++ {
		f(fmt.Sprintf("cut to %d", i), s[:i])
	}
	for _, x := range []string{"0", "00", "01", "zz", s} {
		f("extended by "+x, s+x)
		f("prefixed by "+x, x+s)
	}
	for i := 0; i < len(s); i++ {
		for _, c := range "0123456789abcdefABCDEFgx \x00" {
			if s[i] != byte(c) {
				f(fmt.Sprintf("character %d replaced by %q", i, c), s[:i]+string(c)+s[i+1:])
			}
		}
		f(fmt.Sprintf("character %d removed", i), s[:i]+s[i+1:])
		f(fmt.Sprintf("character %d doubled", i), s[:i+1]+s[i:])
		if i > 0 && s[i] != s[i-1] {
			f(fmt.Sprintf("characters %d and %d swapped", i-1, i), s[:i-1]+s[i:i+1]+s[i-1:i]+s[i+1:])
		}
	}
}

func keyCases(ks []key) {
	for i, k := range ks {
		if !t.Mine(i) {
			continue
		}
		step("key "+k.priv, func() {
			if g := k.k.EncodePrivateKey(); g != "01"+k.priv {
				bad("private-round-trip", "%s became %s", k.priv, g)
			}
			checkPriv("01" + k.priv)
			checkPub(k.pub)
			if wantPriv("01"+k.priv) == false {
				bad("generate", "key %s", k.priv)
			}
			for j, o := range ks {
				if (o.pub == k.pub) != (i == j) {
					bad("public-keys", "keys %s and %s have the public keys %s and %s", k.priv, o.priv, k.pub, o.pub)
				}
			}
		})
		for _, e := range []struct {
			n, s string
			f    func(string)
		}{{"private", "01" + k.priv, checkPriv}, {"public", k.pub, checkPub}} {
			alterations(e.s, func(what, a string) {
				step(e.n+" key "+k.priv+" "+what, func() { e.f(a) })
			})
			for alg := 0; alg < 256; alg++ {
				a := fmt.Sprintf("%02x", alg) + e.s[2:]
				step(e.n+" algorithm "+a, func() { e.f(a) })
			}
		}
	}
	for i, s := range []string{"", "0", "00", "01", "02", "01" + strings.Repeat("00", 32), "01" + strings.Repeat("ff", 32), "01" + order, "01" + order[:62] + "42", "01" + order[:62] + "40", "01" + strings.Repeat("00", 65), "01" + strings.Repeat("ff", 65), "0104" + strings.Repeat("00", 64), "0104" + strings.Repeat("ff", 64)} {
		if t.Mine(i) {
			step("text "+s, func() { checkPriv(s); checkPub(s) })
		}
	}
}

func versions() {
	vs := []uint32{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	for i := 0; i < 32; i++ {
		vs = append(vs, 1<<uint(i), 1<<uint(i)-1, 1<<uint(i)+1)
	}
	step("initial version", func() {
		if v := fcrcrypto.InitialKeyVersion(); v.EncodeKeyVersion() != 1 {
			bad("initial-version", "%d", v.EncodeKeyVersion())
		}
	})
	for _, v := range vs {
		v := v
		step(fmt.Sprint("version ", v), func() {
			k := fcrcrypto.DecodeKeyVersion(v)
			b := k.EncodeKeyVersionAsBytes()
			w := make([]byte, 4)
			binary.BigEndian.PutUint32(w, v)
			if k.EncodeKeyVersion() != v || !bytes.Equal(b, w) {
				bad("version-round-trip", "%d became %d %x", v, k.EncodeKeyVersion(), b)
			}
			k2, err := fcrcrypto.DecodeKeyVersionFromBytes(b)
			if err != nil || k2.EncodeKeyVersion() != v {
				bad("version-round-trip", "%d through bytes: %v %v", v, k2, err)
			}
			for n := 0; n < 4; n++ {
				if x, err := fcrcrypto.DecodeKeyVersionFromBytes(b[:n]); err == nil {
					bad("version-short", "%x decoded to %v", b[:n], x)
				}
			}
			n := k.NextKeyVersion()
			if n.EncodeKeyVersion() != v+1 || k.EncodeKeyVersion() != v {
				bad("next-version", "of %d is %d (itself now %d)", v, n.EncodeKeyVersion(), k.EncodeKeyVersion())
			}
			for _, u := range vs {
				o := fcrcrypto.DecodeKeyVersion(u)
				e := u == v
				if k.Equals(o) != e || k.NotEquals(o) == e || k.EqualsRaw(u) != e || k.NotEqualsRaw(u) == e {
					bad("version-equality", "%d and %d", u, v)
				}
			}
		})
	}
	for a := 0; a < 256; a++ {
		a := uint8(a)
		step(fmt.Sprint("algorithm ", a), func() {
			s := fcrcrypto.DecodeSigAlg(a)
			p := fcrcrypto.DecodeSigAlgFromBytes(s.EncodeSigAlgAsBytes())
			if s.EncodeSigAlg() != a || p.EncodeSigAlg() != a || !s.Is(a) || s.IsNot(a) || !s.Equals(p) || s.Is(a+1) || !s.IsNot(a+1) {
				bad("algorithm", "%d", a)
			}
		})
	}
}

func signatures(ks []key) {
	big := bytes.Repeat([]byte{0x5a}, 5000)
	msgs := [][]byte{nil, {0}, {0, 0}, {1}, []byte("a"), []byte("A"), []byte(`{"a":1}`), bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0}, 64), big, append(append([]byte{}, big...), 0), append([]byte{0}, big...)}
	vers := []uint32{0, 1, 2, 255, 256, 1<<32 - 1}
	n := 0
	for ki, k := range ks {
		for mi, m := range msgs {
			n++
			if !t.Mine(n) {
				continue
			}
			ver := vers[(ki+mi)%len(vers)]
			name := fmt.Sprintf("key %s message %d version %d", k.priv[:8], mi, ver)
			var sig string
			step("sign "+name, func() {
				save := append([]byte{}, m...)
				s, err := fcrcrypto.SignMessage(k.k, fcrcrypto.DecodeKeyVersion(ver), m)
				if err != nil {
					bad("sign", "%s: %v", name, err)
					return
				}
				sig = s
				if !bytes.Equal(save, m) {
					bad("sign", "%s changed the message", name)
				}
				v, err := fcrcrypto.ExtractKeyVersionFromMessage(s)
				if err != nil || v.EncodeKeyVersion() != ver {
					bad("version-of-signature", "%s: %v %v", name, v, err)
				}
				for round := 0; round < 2; round++ {
					for kj, o := range ks {
						for mj, m2 := range msgs {
							// with the pair that signed, with its public half as others get it
							pub, err := fcrcrypto.DecodePublicKey(o.pub)
							if err != nil {
								bad("decode-public", "%s: %v", o.pub, err)
								continue
							}
							for which, vk := range []*fcrcrypto.KeyPair{pub, o.k} {
								if which == 1 && round == 1 {
									continue
								}
								ok, err := fcrcrypto.VerifyMessage(vk, s, m2)
								same := ki == kj && bytes.Equal(m, m2)
								if ok != same || same && err != nil {
									bad("verify", "%s: verifies message %d under key %s: %v %v", name, mj, o.priv[:8], ok, err)
								}
							}
							h, err := pub.HashPublicKey()
							h2, err2 := o.k.HashPublicKey()
							if err != nil || err2 != nil || !bytes.Equal(h, h2) {
								bad("hash-public", "%s: %x %x %v %v", o.pub, h, h2, err, err2)
							}
							ok, _ := fcrcrypto.RetrievalV1Verify(dec(s)[4:], m2, h)
							if ok != (ki == kj && bytes.Equal(m, m2)) {
								bad("verify-hash", "%s: verifies message %d under the hash of key %s: %v", name, mj, o.priv[:8], ok)
							}
						}
					}
				}
			})
			if sig == "" || mi > 1 && ki > 1 && !t.Thorough() {
				continue
			}
			pub, err := fcrcrypto.DecodePublicKey(k.pub)
			if err != nil {
				continue
			}
			hash, _ := pub.HashPublicKey()
			raw := dec(sig)
			try := func(what string, s []byte) {
				if bytes.Equal(s, raw) {
					return
				}
				step(fmt.Sprintf("altered %s: %s", name, what), func() {
					txt := hex.EncodeToString(s)
					ok, _ := fcrcrypto.VerifyMessage(pub, txt, m)
					// the recovery byte and the version are not what was signed
					core := len(s) >= 68 && len(s) <= 69 && bytes.Equal(s[4:68], raw[4:68])
					if ok && !core {
						bad("altered-signature", "%s: %s verifies", name, what)
					}
					if len(s) >= 4 {
						if ok, _ := fcrcrypto.RetrievalV1Verify(s[4:], m, hash); ok && !bytes.Equal(s[4:], raw[4:]) {
							bad("altered-signature-hash", "%s: %s verifies", name, what)
						}
					} else {
						fcrcrypto.RetrievalV1Verify(s, m, hash)
					}
					v, err := fcrcrypto.ExtractKeyVersionFromMessage(txt)
					switch {
					case len(s) == 0:
						if err == nil && v.EncodeKeyVersion() != 0 {
							bad("version-of-signature", "of nothing is %v", v)
						}
					case len(s) < 4:
						if err == nil {
							bad("version-of-signature", "of %s is %v", txt, v)
						}
					default:
						if err != nil || v.EncodeKeyVersion() != binary.BigEndian.Uint32(s) {
							bad("version-of-signature", "of %s is %v %v", txt, v, err)
						}
					}
				})
			}
			for i := range raw {
				for bit := 0; bit < 8; bit++ {
					s := append([]byte{}, raw...)
					s[i] ^= 1 << uint(bit)
					try(fmt.Sprintf("bit %d of byte %d flipped", bit, i), s)
				}
				for _, v := range []byte{0, 0xff} {
					s := append([]byte{}, raw...)
					s[i] = v
					try(fmt.Sprintf("byte %d set to %d", i, v), s)
				}
				try(fmt.Sprintf("byte %d removed", i), append(append([]byte{}, raw[:i]...), raw[i+1:]...))
				try(fmt.Sprintf("cut to %d bytes", i), raw[:i])
				try(fmt.Sprintf("byte %d doubled", i), append(append([]byte{}, raw[:i+1]...), raw[i:]...))
			}
			for _, x := range [][]byte{{0}, {1}, raw, make([]byte, 64)} {
				try(fmt.Sprintf("extended by %d", len(x)), append(append([]byte{}, raw...), x...))
			}
			zero := append(append([]byte{}, raw[:4]...), make([]byte, 65)...)
			try("all zero", zero)
			// r and s exchanged; s replaced by order-s (the other valid root)
			sw := append([]byte{}, raw...)
			copy(sw[4:36], raw[36:68])
			copy(sw[36:68], raw[4:36])
			try("r and s exchanged", sw)
			for _, txt := range []string{sig[:len(sig)-1], "g" + sig[1:], sig + "0", " " + sig, "0x" + sig} {
				step("text "+name+txt, func() {
					if ok, _ := fcrcrypto.VerifyMessage(pub, txt, m); ok {
						bad("altered-signature", "%q verifies", txt)
					}
					if v, err := fcrcrypto.ExtractKeyVersionFromMessage(txt); err == nil {
						bad("version-of-signature", "of %q is %v", txt, v)
					}
				})
			}
			if t.Over() {
				t.NotExhaustive("deadline")
				return
			}
		}
	}
}

func main() {
	vh.Main(func(tt *vh.T) {
		t = tt
		ks := keys()
		keyCases(ks)
		versions()
		signatures(ks)
		histories(t.Pick(4, 5), ks)
		t.Sample(map[string]interface{}{"keys": len(ks), "messages": 12, "versions": 111})
		t.Assume("the recovery byte and the version prefix of a signature are not covered by it: changing only them is not judged by the key-based verification (it is by the hash-based one)")
		t.Assume("a public key text of the right form that is no curve point may be accepted or refused")
	})
}
