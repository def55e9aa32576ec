//go:build go1.21

// C17: signed messages of every kind under every single alteration.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/verif/codecs"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 3000 {
		d = d[:3000]
	}
	t.Violate(key, d, d)
}

func step(name string, f func()) {
	t.Case(func() string { return name })
	t.Eval()
	t.Distinct(name)
	t.Try("crash", name, f)
}

type key struct{ priv, pub *fcrcrypto.KeyPair }

func keys() (r []key) {
	for _, p := range []string{strings.Repeat("00", 31) + "01", "5ed053eab6fdf18c03954373ff7f89089992017d56beb8b05305b19800d6afe0", strings.Repeat("7f", 32), "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"} {
		k, err := fcrcrypto.DecodePrivateKey("01" + p)
		if err != nil {
			panic(err)
		}
		s, err := k.EncodePublicKey()
		if err != nil {
			panic(err)
		}
		pub, err := fcrcrypto.DecodePublicKey(s)
		if err != nil {
			panic(err)
		}
		r = append(r, key{k, pub})
	}
	return
}

// signed is the signed value of a signature: without key version and recovery
func signed(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) < 68 {
		return "?" + s
	}
	return string(b[4:68])
}

func same(a, b *m.FCRMessage) bool {
	return a.GetMessageType() == b.GetMessageType() && a.GetProtocolVersion() == b.GetProtocolVersion() && fmt.Sprint(a.GetProtocolSupported()) == fmt.Sprint(b.GetProtocolSupported()) &&
		bytes.Equal(a.GetMessageBody(), b.GetMessageBody()) &&
		(a.GetMessageBody() == nil) == (b.GetMessageBody() == nil) && (a.GetProtocolSupported() == nil) == (b.GetProtocolSupported() == nil)
}

// verify verifies and checks that nothing changes
func verify(x *m.FCRMessage, k *fcrcrypto.KeyPair) bool {
	was := codecs.Show(x)
	err := x.Verify(k)
	if now := codecs.Show(x); now != was {
		bad("changed", "verifying (result %v) changes %s to %s", err, was, now)
	}
	return err == nil
}

// judge compares the verdict on an altered message
func judge(orig, x *m.FCRMessage, k key, what string) {
	t.EvalN(1)
	t.Distinct(what)
	ok := verify(x, k.pub)
	switch {
	case same(orig, x) && x.GetSignature() == orig.GetSignature():
		if !ok {
			bad("genuine", "message %s, unchanged in value (%s), does not verify", codecs.Show(orig), what)
		}
	case same(orig, x) && signed(x.GetSignature()) == signed(orig.GetSignature()):
		// the key version and the recovery byte are not covered
	case ok:
		bad("altered", "message %s still verifies with %s: %s", codecs.Show(orig), what, codecs.Show(x))
	}
}

func read(b []byte) *m.FCRMessage {
	x, err := m.FCRMsgFromBytes(b)
	if err != nil {
		return nil
	}
	return x
}

type fields struct {
	T  int32   `json:"message_type"`
	V  int32   `json:"protocol_version"`
	Su []int32 `json:"protocol_supported"`
	B  []byte  `json:"message_body"`
	S  string  `json:"message_signature"`
}

func one(name string, x *m.FCRMessage, ks []key, ki int, deep bool) {
	k := ks[ki]
	if verify(x, k.pub) {
		bad("unsigned", "%s verifies unsigned", name)
	}
	for _, ver := range []uint32{1, 0, 0xffffffff} {
		if err := x.Sign(k.priv, fcrcrypto.DecodeKeyVersion(ver)); err != nil {
			bad("sign", "%s: %v", name, err)
			return
		}
		for n := 0; n < 3; n++ {
			if !verify(x, k.pub) {
				bad("genuine", "%s does not verify under the key that signed it (time %d, version %d)", name, n+1, ver)
			}
			for j, z := range ks {
				if j != ki && verify(x, z.pub) {
					bad("other-key", "%s verifies under another key", name)
				}
			}
		}
		if v, err := fcrcrypto.ExtractKeyVersionFromMessage(x.GetSignature()); err != nil || v.EncodeKeyVersion() != ver {
			bad("version", "%s signed with version %d carries another", name, ver)
		}
	}
	wire, err := x.FCRMsgToBytes()
	if err != nil {
		bad("wire", "%s: %v", name, err)
		return
	}
	far := read(wire)
	if far == nil || codecs.Show(far) != codecs.Show(x) {
		bad("wire", "%s does not cross the wire", name)
		return
	}
	for n := 0; n < 3; n++ {
		if !verify(far, k.pub) {
			bad("genuine", "%s does not verify after crossing the wire (time %d)", name, n+1)
		}
	}
	// nested in another message
	nb, _ := json.Marshal([]m.FCRMessage{*x})
	var in []m.FCRMessage
	if json.Unmarshal(nb, &in) != nil || len(in) != 1 || !verify(&in[0], k.pub) {
		bad("genuine", "%s does not verify after being nested", name)
	}
	// signed again by another
	o := ks[(ki+1)%len(ks)]
	y := read(wire)
	if y.Sign(o.priv, fcrcrypto.InitialKeyVersion()) != nil || !verify(y, o.pub) || verify(y, k.pub) {
		bad("resigned", "%s signed again by another key", name)
	}

	var f fields
	if json.Unmarshal(wire, &f) != nil {
		bad("wire", "%s has an unknown wire form %s", name, wire)
		return
	}
	field := func(what string, g func(f *fields)) {
		c := f
		c.Su = append([]int32{}, f.Su...)
		c.B = append([]byte{}, f.B...)
		g(&c)
		b, _ := json.Marshal(c)
		if z := read(b); z != nil {
			judge(x, z, k, name+": "+what)
		}
	}
	for i := 0; i < 32; i++ {
		i := i
		field(fmt.Sprintf("type bit %d", i), func(f *fields) { f.T ^= 1 << i })
		field(fmt.Sprintf("version bit %d", i), func(f *fields) { f.V ^= 1 << i })
	}
	field("type zero", func(f *fields) { f.T = 0 })
	for i := range f.Su {
		i := i
		for _, d := range []int32{1, -1, 1 << 30} {
			d := d
			field(fmt.Sprintf("supported version %d by %d", i, d), func(f *fields) { f.Su[i] += d })
		}
		field(fmt.Sprintf("supported version %d removed", i), func(f *fields) { f.Su = append(f.Su[:i], f.Su[i+1:]...) })
		field(fmt.Sprintf("supported version %d doubled", i), func(f *fields) { f.Su = append(f.Su, f.Su[i]) })
	}
	field("no supported versions", func(f *fields) { f.Su = nil })
	field("body empty", func(f *fields) { f.B = []byte{} })
	field("body null", func(f *fields) { f.B = []byte("null") })
	field("body with a space", func(f *fields) { f.B = append(f.B, ' ') })
	step1 := 1
	if !deep {
		step1 = 11
	}
	for i := 0; i < len(f.B); i += step1 {
		i := i
		field(fmt.Sprintf("body byte %d flipped", i), func(f *fields) { f.B[i] ^= 1 })
		field(fmt.Sprintf("body byte %d removed", i), func(f *fields) { f.B = append(f.B[:i], f.B[i+1:]...) })
		field(fmt.Sprintf("body byte %d doubled", i), func(f *fields) { f.B = append(f.B[:i+1], append([]byte{}, f.B[i:]...)...) })
		if i > 0 {
			field(fmt.Sprintf("body bytes %d and before swapped", i), func(f *fields) { f.B[i], f.B[i-1] = f.B[i-1], f.B[i] })
		}
	}
	for i := 0; i <= len(f.S); i++ {
		i := i
		if i < len(f.S) {
			for _, c := range "0fz" {
				field(fmt.Sprintf("signature digit %d set to %c", i, c), func(f *fields) { f.S = f.S[:i] + string(c) + f.S[i+1:] })
			}
		}
		if deep || i%8 == 0 {
			field(fmt.Sprintf("signature cut to %d", i), func(f *fields) { f.S = f.S[:i] })
		}
	}
	field("signature of an empty message", func(f *fields) { f.S, _ = fcrcrypto.SignMessage(k.priv, fcrcrypto.InitialKeyVersion(), []byte{}) })
	field("signature of the body only", func(f *fields) { f.S, _ = fcrcrypto.SignMessage(k.priv, fcrcrypto.InitialKeyVersion(), f.B) })
	if !deep {
		return
	}
	for i := range wire {
		for _, c := range []byte{wire[i] ^ 1, wire[i] ^ 0x20, ' ', '0', '1', '"'} {
			if c == wire[i] {
				continue
			}
			b := append([]byte{}, wire...)
			b[i] = c
			if z := read(b); z != nil {
				judge(x, z, k, fmt.Sprintf("%s: wire byte %d set to %q", name, i, c))
			}
		}
		if z := read(append(append([]byte{}, wire[:i]...), wire[i+1:]...)); z != nil {
			judge(x, z, k, fmt.Sprintf("%s: wire byte %d removed", name, i))
		}
		if z := read(wire[:i]); z != nil {
			bad("truncated", "%s cut at %d is taken for a message", name, i)
		}
	}
}

func main() {
	vh.Main(func(x *vh.T) {
		t = x
		ks := keys()
		var msgs []*m.FCRMessage
		var names []string
		for n, k := range codecs.Kinds {
			msg, err := k.Encode(k.Base())
			if err != nil {
				bad("encode", "%s: %v", k.Name, err)
				continue
			}
			if n%5 == 3 { // as if from a peer with other versions
				var f fields
				w, _ := msg.FCRMsgToBytes()
				json.Unmarshal(w, &f)
				f.V, f.Su = 2, []int32{7, -3, 2}
				w, _ = json.Marshal(f)
				msg = read(w)
			}
			msgs, names = append(msgs, msg), append(names, k.Name)
		}
		for i, b := range []string{"", "{}", "\x00\xff\xfe", strings.Repeat("x", 70000)} {
			z := codecs.Msg(int32(i)-2, b, "")
			msgs, names = append(msgs, &z), append(names, fmt.Sprintf("odd %d", i))
		}
		for i := range msgs {
			if !t.Mine(i) {
				continue
			}
			i := i
			if len(msgs[i].GetMessageBody()) > 20000 {
				f := msgs[i]
				step(names[i], func() {
					f.Sign(ks[0].priv, fcrcrypto.InitialKeyVersion())
					if !verify(f, ks[0].pub) || verify(f, ks[1].pub) {
						bad("genuine", "long message")
					}
				})
				continue
			}
			step(names[i], func() { one(names[i], msgs[i], ks, i%len(ks), t.Thorough() || i%6 == 0) })
			if t.Over() {
				t.NotExhaustive("deadline")
				return
			}
		}
		histories(t.Pick(4, 5), ks)
		// a signature stands for one message only
		for i := range msgs {
			if !t.Mine(i) {
				continue
			}
			for j := range msgs {
				if i == j {
					continue
				}
				i, j := i, j
				step(names[i]+" signature on "+names[j], func() {
					var f fields
					w, _ := msgs[j].FCRMsgToBytes()
					json.Unmarshal(w, &f)
					msgs[i].Sign(ks[0].priv, fcrcrypto.InitialKeyVersion())
					f.S = msgs[i].GetSignature()
					w, _ = json.Marshal(f)
					if z := read(w); z != nil && verify(z, ks[0].pub) {
						bad("swapped", "the signature of %s verifies on %s", names[i], names[j])
					}
				})
			}
		}
		t.Sample(map[string]interface{}{"messages": len(msgs), "first": codecs.Show(msgs[0])})
	})
}
