//go:build go1.21

// C21 (codecs): no alteration of any message, offer, proof, identifier or
// registration crashes or hangs decoding or the use of what is decoded.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/codecs"
	"github.com/ConsenSys/fc-retrieval/common/verif/jmut"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

var t *vh.T
var pub, priv *fcrcrypto.KeyPair
var someCID *cid.ContentID

func keyPair() {
	var err error
	priv, err = fcrcrypto.DecodePrivateKey("015ed053eab6fdf18c03954373ff7f89089992017d56beb8b05305b19800d6afe0")
	if err != nil {
		panic(err)
	}
	s, err := priv.EncodePublicKey()
	if err != nil {
		panic(err)
	}
	pub, err = fcrcrypto.DecodePublicKey(s)
	if err != nil {
		panic(err)
	}
	someCID, _ = cid.NewContentIDFromHexString("2a")
}

// use does with a decoded value what a node would
func use(v interface{}) {
	switch x := v.(type) {
	case *cid.ContentID:
		_, _ = x.ToString(), x.ToBytes()
		x.CalculateHash()
	case *nodeid.NodeID:
		_, _ = x.ToString(), x.ToBytes()
	case *fcrcrypto.KeyPair:
		x.EncodePrivateKey()
		x.EncodePublicKey()
		fcrcrypto.SignMessage(x, fcrcrypto.InitialKeyVersion(), []byte("x"))
	case *fcrcrypto.KeyVersion:
		x.EncodeKeyVersion()
	case *m.FCRMessage:
		x.Verify(pub)
		x.DumpMessage()
		x.FCRMsgToBytes()
	case m.FCRMessage:
		use(&x)
	case *cidoffer.CIDOffer:
		x.Verify(pub)
		x.HasExpired()
		x.GetMessageDigest()
		x.MarshalJSON()
		use(x.GetProviderID())
		for i := range x.GetCIDs() {
			p, err := x.GenerateSubCIDOffer(&x.GetCIDs()[i])
			if err == nil {
				use(p)
			}
		}
		if p, err := x.GenerateSubCIDOffer(someCID); err == nil {
			use(p)
		}
	case cidoffer.CIDOffer:
		use(&x)
	case *cidoffer.SubCIDOffer:
		x.Verify(pub)
		x.VerifyMerkleProof()
		x.HasExpired()
		x.MarshalJSON()
		use(x.GetProviderID())
		use(x.GetSubCID())
	case cidoffer.SubCIDOffer:
		use(&x)
	case *fcrmerkletree.FCRMerkleProof:
		x.VerifyContent(someCID, strings.Repeat("0", 64))
		x.MarshalJSON()
	case string, bool, int64, int32, uint64:
	default:
		r := reflect.ValueOf(v)
		if r.Kind() == reflect.Slice {
			for i := 0; i < r.Len() && i < 20; i++ {
				use(r.Index(i).Interface())
			}
		}
	}
}

func decodeAll(k codecs.Kind, msg *m.FCRMessage, what func() string) {
	t.Case(what)
	t.Eval()
	ok := false
	if !t.Try("crash:"+k.Name, nil, func() {
		vs, err := k.Decode(msg)
		if err != nil {
			return
		}
		ok = true
		for _, v := range vs {
			if x := v.Interface(); x != nil {
				use(x)
			}
		}
		// what was accepted can be sent on
		if len(vs) == k.Enc.Type().NumIn() {
			if k.Name == "ProviderPublishGroupOfferResponse" {
				vs[0] = vs[0].Elem()
			}
			k.Encode(vs)
		}
	}) {
		d := what()
		t.Violate("crash:"+k.Name+":input", "crashed by "+d, d)
	}
	if ok {
		t.Count("accepted", 1)
	} else {
		t.Count("refused", 1)
	}
}

var menu = []string{"null", "empty text", "zero", "-2^63", "max int64", "empty list", "not hex", "66 hex digits", "doubled", "without its first", "a list of null", "a proof of nil"}

func kind(k codecs.Kind) {
	in := k.Enc.Type().NumIn()
	dom := make([][]interface{}, in)
	args := [][]reflect.Value{k.Base()}
	for i := range dom {
		dom[i] = codecs.Domain(k.Enc.Type().In(i), k.Name, i)
		for n, v := range dom[i] {
			// the rich values of structured fields as further starting points
			switch v.(type) {
			case string, int64, int32, uint64, bool, []string, []bool:
				continue
			}
			if n == 0 || n > 3 {
				continue
			}
			a := append([]reflect.Value{}, args[0]...)
			a[i] = reflect.ValueOf(v)
			args = append(args, a)
		}
	}
	seen := map[string]bool{}
	for n, a := range args {
		msg, err := k.Encode(a)
		if err != nil || seen[string(msg.GetMessageBody())] {
			continue
		}
		seen[string(msg.GetMessageBody())] = true
		body := msg.GetMessageBody()
		typ := msg.GetMessageType()
		try := func(x jmut.Mut) {
			t.Distinct(k.Name + x.String() + fmt.Sprint(n))
			b := x.Body
			decodeAll(k, m.CreateFCRMessage(typ, b), func() string { return k.Name + " with " + x.String() + ": " + cut(string(b)) })
		}
		jmut.One(body, try)
		if n == 0 || t.Thorough() {
			jmut.Texts(body, 1, try)
			if len(body) < 1500 || t.Thorough() {
				jmut.Two(body, menu, try)
			}
		}
	}
	t.Try("crash:nil-body", k.Name, func() { k.Decode(m.CreateFCRMessage(0, nil)) })
	x, _ := k.Encode(k.Base())
	decodeAll(k, m.CreateFCRMessage(x.GetMessageType(), nil), func() string { return k.Name + " without a body" })
}

func cut(s string) string {
	if len(s) > 1200 {
		return s[:1200] + "..."
	}
	return s
}

// plain runs one decoder of bytes over all alterations of good documents
func plain(name string, f func(b []byte), good ...string) {
	for n, g := range good {
		try := func(x jmut.Mut) {
			what := func() string { return name + " with " + x.String() + ": " + cut(string(x.Body)) }
			t.Case(what)
			t.Eval()
			t.Distinct(name + x.String() + fmt.Sprint(n))
			if !t.Try("crash:"+name, nil, func() { f(x.Body) }) {
				t.Violate("crash:"+name+":input", "crashed by "+what(), what())
			}
		}
		jmut.One([]byte(g), try)
		jmut.Texts([]byte(g), 1, try)
		jmut.Two([]byte(g), menu, try)
	}
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func main() {
	vh.Main(func(x *vh.T) {
		t = x
		keyPair()
		for i, k := range codecs.Kinds {
			if t.Mine(i) {
				kind(k)
			}
			if t.Over() {
				t.NotExhaustive("deadline")
				return
			}
		}
		o := codecs.Offer("01", 1, 2, 3, "00000001ab", "2a", "01", "02")
		p := codecs.Part(o, 1)
		msg := codecs.Msg(302, `{"a":"b"}`, "00000001abcd")
		pk, _ := priv.EncodePublicKey()
		gr := register.NewGatewayRegister("01", "a", pk, pk, "r", "g", "p", "c", "ad")
		pr := register.NewProviderRegister("01", "a", pk, pk, "r", "g", "c", "ad")
		jobs := []func(){
			func() {
				plain("message", func(b []byte) {
					if z, err := m.FCRMsgFromBytes(b); err == nil {
						use(z)
					}
				}, js(msg))
			},
			func() {
				plain("offer", func(b []byte) {
					var z cidoffer.CIDOffer
					if json.Unmarshal(b, &z) == nil && len(z.GetCIDs()) > 0 {
						use(&z)
					}
				}, js(o))
			},
			func() {
				plain("part", func(b []byte) {
					var z cidoffer.SubCIDOffer
					if json.Unmarshal(b, &z) == nil {
						use(&z)
					}
				}, js(p))
			},
			func() {
				plain("proof", func(b []byte) {
					var z fcrmerkletree.FCRMerkleProof
					if json.Unmarshal(b, &z) == nil {
						use(&z)
					}
				}, js(p.GetMerkleProof()))
			},
			func() {
				plain("identifiers", func(b []byte) {
					var z cid.ContentID
					if json.Unmarshal(b, &z) == nil {
						use(&z)
					}
					var y nodeid.NodeID
					if json.Unmarshal(b, &y) == nil {
						use(&y)
					}
				}, js(someCID))
			},
			func() {
				plain("gateway registrations", func(b []byte) {
					var l []register.GatewayRegister
					if json.Unmarshal(b, &l) != nil {
						return
					}
					for i := range l {
						if k, err := l[i].GetSigningKey(); err == nil {
							msg.Verify(k)
						}
						if k, err := l[i].GetRootSigningKey(); err == nil {
							msg.Verify(k)
						}
						if n, err := nodeid.NewNodeIDFromHexString(l[i].GetNodeID()); err == nil {
							use(n)
						}
					}
				}, js([]register.GatewayRegister{gr.Serialize()}))
			},
			func() {
				plain("provider registrations", func(b []byte) {
					var l []register.ProviderRegister
					if json.Unmarshal(b, &l) != nil {
						return
					}
					for i := range l {
						if k, err := l[i].GetSigningKey(); err == nil {
							msg.Verify(k)
						}
						if k, err := l[i].GetRootSigningKey(); err == nil {
							msg.Verify(k)
						}
						if n, err := nodeid.NewNodeIDFromHexString(l[i].GetNodeID()); err == nil {
							use(n)
						}
					}
				}, js([]register.ProviderRegister{pr.Serialize()}))
			},
			func() {
				// texts that are not JSON: keys, versions, signatures, digests
				sig, _ := fcrcrypto.SignMessage(priv, fcrcrypto.InitialKeyVersion(), []byte("x"))
				for _, good := range []string{pk, priv.EncodePrivateKey(), sig, cidoffer.EncodeMessageDigest(o.GetMessageDigest())} {
					jmut.Texts([]byte(good), 1, func(x jmut.Mut) {
						t.Eval()
						s := string(x.Body)
						t.Case(func() string { return "text " + s })
						t.Try("crash:text", s, func() {
							if k, err := fcrcrypto.DecodePublicKey(s); err == nil {
								msg.Verify(k)
								fcrcrypto.VerifyMessage(k, sig, []byte("x"))
							}
							if k, err := fcrcrypto.DecodePrivateKey(s); err == nil {
								use(k)
							}
							fcrcrypto.ExtractKeyVersionFromMessage(s)
							fcrcrypto.VerifyMessage(pub, s, []byte("x"))
							cidoffer.DecodeMessageDigest(s)
							nodeid.NewNodeIDFromHexString(s)
							cid.NewContentIDFromHexString(s)
						})
					})
				}
			},
		}
		for i, j := range jobs {
			if t.Mine(i) {
				j()
			}
		}
		t.Sample(map[string]interface{}{"kinds": len(codecs.Kinds), "plain documents": len(jobs)})
	})
}
