//go:build go1.21

// Package codecs lists every message kind with its encoder and decoder, and
// generates values of their fields.
package codecs

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/cbergoon/merkletree"
)

// Kind is one message kind.
type Kind struct {
	Name     string
	Enc, Dec reflect.Value
}

func k(name string, enc, dec interface{}) Kind {
	return Kind{name, reflect.ValueOf(enc), reflect.ValueOf(dec)}
}

// Kinds lists them all.
var Kinds = []Kind{
	k("ClientDHTDiscoverOfferRequest", m.EncodeClientDHTDiscoverOfferRequest, m.DecodeClientDHTDiscoverOfferRequest),
	k("ClientDHTDiscoverOfferResponse", m.EncodeClientDHTDiscoverOfferResponse, m.DecodeClientDHTDiscoverOfferResponse),
	k("ClientDHTDiscoverRequest", m.EncodeClientDHTDiscoverRequest, m.DecodeClientDHTDiscoverRequest),
	k("ClientDHTDiscoverRequestV2", m.EncodeClientDHTDiscoverRequestV2, m.DecodeClientDHTDiscoverRequestV2),
	k("ClientDHTDiscoverResponse", m.EncodeClientDHTDiscoverResponse, m.DecodeClientDHTDiscoverResponse),
	k("ClientDHTDiscoverResponseV2", m.EncodeClientDHTDiscoverResponseV2, m.DecodeClientDHTDiscoverResponseV2),
	k("ClientDHTOfferAckRequest", m.EncodeClientDHTOfferAckRequest, m.DecodeClientDHTOfferAckRequest),
	k("ClientDHTOfferAckResponse", m.EncodeClientDHTOfferAckResponse, m.DecodeClientDHTOfferAckResponse),
	k("ClientEstablishmentRequest", m.EncodeClientEstablishmentRequest, m.DecodeClientEstablishmentRequest),
	k("ClientEstablishmentResponse", m.EncodeClientEstablishmentResponse, m.DecodeClientEstablishmentResponse),
	k("ClientStandardDiscoverOfferRequest", m.EncodeClientStandardDiscoverOfferRequest, m.DecodeClientStandardDiscoverOfferRequest),
	k("ClientStandardDiscoverOfferResponse", m.EncodeClientStandardDiscoverOfferResponse, m.DecodeClientStandardDiscoverOfferResponse),
	k("ClientStandardDiscoverRequest", m.EncodeClientStandardDiscoverRequest, m.DecodeClientStandardDiscoverRequest),
	k("ClientStandardDiscoverRequestV2", m.EncodeClientStandardDiscoverRequestV2, m.DecodeClientStandardDiscoverRequestV2),
	k("ClientStandardDiscoverResponse", m.EncodeClientStandardDiscoverResponse, m.DecodeClientStandardDiscoverResponse),
	k("ClientStandardDiscoverResponseV2", m.EncodeClientStandardDiscoverResponseV2, m.DecodeClientStandardDiscoverResponseV2),
	k("GatewayAdminForceRefreshRequest", m.EncodeGatewayAdminForceRefreshRequest, m.DecodeGatewayAdminForceRefreshRequest),
	k("GatewayAdminForceRefreshResponse", m.EncodeGatewayAdminForceRefreshResponse, m.DecodeGatewayAdminForceRefreshResponse),
	k("GatewayAdminGetReputationRequest", m.EncodeGatewayAdminGetReputationRequest, m.DecodeGatewayAdminGetReputationRequest),
	k("GatewayAdminGetReputationResponse", m.EncodeGatewayAdminGetReputationResponse, m.DecodeGatewayAdminGetReputationResponse),
	k("GatewayAdminInitialiseKeyRequest", m.EncodeGatewayAdminInitialiseKeyRequest, m.DecodeGatewayAdminInitialiseKeyRequest),
	k("GatewayAdminInitialiseKeyRequestV2", m.EncodeGatewayAdminInitialiseKeyRequestV2, m.DecodeGatewayAdminInitialiseKeyRequestV2),
	k("GatewayAdminInitialiseKeyResponse", m.EncodeGatewayAdminInitialiseKeyResponse, m.DecodeGatewayAdminInitialiseKeyResponse),
	k("GatewayAdminListDHTOfferRequest", m.EncodeGatewayAdminListDHTOfferRequest, m.DecodeGatewayAdminListDHTOfferRequest),
	k("GatewayAdminListDHTOfferResponse", m.EncodeGatewayAdminListDHTOfferResponse, m.DecodeGatewayAdminListDHTOfferResponse),
	k("GatewayAdminSetReputationRequest", m.EncodeGatewayAdminSetReputationRequest, m.DecodeGatewayAdminSetReputationRequest),
	k("GatewayAdminSetReputationResponse", m.EncodeGatewayAdminSetReputationResponse, m.DecodeGatewayAdminSetReputationResponse),
	k("GatewayDHTDiscoverOfferRequest", m.EncodeGatewayDHTDiscoverOfferRequest, m.DecodeGatewayDHTDiscoverOfferRequest),
	k("GatewayDHTDiscoverOfferResponse", m.EncodeGatewayDHTDiscoverOfferResponse, m.DecodeGatewayDHTDiscoverOfferResponse),
	k("GatewayDHTDiscoverRequest", m.EncodeGatewayDHTDiscoverRequest, m.DecodeGatewayDHTDiscoverRequest),
	k("GatewayDHTDiscoverRequestV2", m.EncodeGatewayDHTDiscoverRequestV2, m.DecodeGatewayDHTDiscoverRequestV2),
	k("GatewayDHTDiscoverResponse", m.EncodeGatewayDHTDiscoverResponse, m.DecodeGatewayDHTDiscoverResponse),
	k("GatewayDHTDiscoverResponseV2", m.EncodeGatewayDHTDiscoverResponseV2, m.DecodeGatewayDHTDiscoverResponseV2),
	k("GatewayListDHTOfferAck", m.EncodeGatewayListDHTOfferAck, m.DecodeGatewayListDHTOfferAck),
	k("GatewayListDHTOfferRequest", m.EncodeGatewayListDHTOfferRequest, m.DecodeGatewayListDHTOfferRequest),
	k("GatewayListDHTOfferResponse", m.EncodeGatewayListDHTOfferResponse, m.DecodeGatewayListDHTOfferResponse),
	k("GatewayNotifyProviderGroupCIDOfferSupportRequest", m.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest, m.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest),
	k("GatewayNotifyProviderGroupCIDOfferSupportResponse", m.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse, m.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse),
	k("GatewayPingRequest", m.EncodeGatewayPingRequest, m.DecodeGatewayPingRequest),
	k("GatewayPingResponse", m.EncodeGatewayPingResponse, m.DecodeGatewayPingResponse),
	k("InvalidMessageResponse", m.EncodeInvalidMessageResponse, m.DecodeInvalidMessageResponse),
	k("ProtocolChangeRequest", m.EncodeProtocolChangeRequest, m.DecodeProtocolChangeRequest),
	k("ProtocolChangeResponse", m.EncodeProtocolChangeResponse, m.DecodeProtocolChangeResponse),
	k("ProviderAdminForceRefreshRequest", m.EncodeProviderAdminForceRefreshRequest, m.DecodeProviderAdminForceRefreshRequest),
	k("ProviderAdminForceRefreshResponse", m.EncodeProviderAdminForceRefreshResponse, m.DecodeProviderAdminForceRefreshResponse),
	k("ProviderAdminGetPublishedOfferRequest", m.EncodeProviderAdminGetPublishedOfferRequest, m.DecodeProviderAdminGetPublishedOfferRequest),
	k("ProviderAdminGetPublishedOfferResponse", m.EncodeProviderAdminGetPublishedOfferResponse, m.DecodeProviderAdminGetPublishedOfferResponse),
	k("ProviderAdminInitialiseKeyRequest", m.EncodeProviderAdminInitialiseKeyRequest, m.DecodeProviderAdminInitialiseKeyRequest),
	k("ProviderAdminInitialiseKeyRequestV2", m.EncodeProviderAdminInitialiseKeyRequestV2, m.DecodeProviderAdminInitialiseKeyRequestV2),
	k("ProviderAdminInitialiseKeyResponse", m.EncodeProviderAdminInitialiseKeyResponse, m.DecodeProviderAdminInitialiseKeyResponse),
	k("ProviderAdminPublishDHTOfferRequest", m.EncodeProviderAdminPublishDHTOfferRequest, m.DecodeProviderAdminPublishDHTOfferRequest),
	k("ProviderAdminPublishDHTOfferResponse", m.EncodeProviderAdminPublishDHTOfferResponse, m.DecodeProviderAdminPublishDHTOfferResponse),
	k("ProviderAdminPublishGroupOfferRequest", m.EncodeProviderAdminPublishGroupOfferRequest, m.DecodeProviderAdminPublishGroupOfferRequest),
	k("ProviderAdminPublishGroupOfferResponse", m.EncodeProviderAdminPublishGroupOfferResponse, m.DecodeProviderAdminPublishGroupOfferResponse),
	k("ProviderPublishDHTOfferRequest", m.EncodeProviderPublishDHTOfferRequest, m.DecodeProviderPublishDHTOfferRequest),
	k("ProviderPublishDHTOfferResponse", m.EncodeProviderPublishDHTOfferResponse, m.DecodeProviderPublishDHTOfferResponse),
	k("ProviderPublishGroupOfferRequest", m.EncodeProviderPublishGroupOfferRequest, m.DecodeProviderPublishGroupOfferRequest),
	k("ProviderPublishGroupOfferResponse", m.EncodeProviderPublishGroupOfferResponse, m.DecodeProviderPublishGroupOfferResponse),
	k("UpdateGatewayGroupCIDOfferSupportRequest", m.EncodeUpdateGatewayGroupCIDOfferSupportRequest, m.DecodeUpdateGatewayGroupCIDOfferSupportRequest),
	k("UpdateGatewayGroupCIDOfferSupportResponse", m.EncodeUpdateGatewayGroupCIDOfferSupportResponse, m.DecodeUpdateGatewayGroupCIDOfferSupportResponse),
}

// Encode calls the encoder.
func (k Kind) Encode(args []reflect.Value) (*m.FCRMessage, error) {
	r := k.Enc.Call(args)
	if e, _ := r[1].Interface().(error); e != nil {
		return nil, e
	}
	return r[0].Interface().(*m.FCRMessage), nil
}

// Decode calls the decoder; the error is apart from the values.
func (k Kind) Decode(msg *m.FCRMessage) ([]reflect.Value, error) {
	r := k.Dec.Call([]reflect.Value{reflect.ValueOf(msg)})
	e, _ := r[len(r)-1].Interface().(error)
	return r[:len(r)-1], e
}

// Show writes a value out so that equal values, and only those, look equal.
func Show(v interface{}) string {
	switch x := v.(type) {
	case *cid.ContentID:
		if x == nil {
			return "<nil>"
		}
		return "cid:" + x.ToString()
	case cid.ContentID:
		return "cid:" + x.ToString()
	case *nodeid.NodeID:
		if x == nil {
			return "<nil>"
		}
		return "node:" + x.ToString()
	case nodeid.NodeID:
		return "node:" + x.ToString()
	case *fcrcrypto.KeyPair:
		if x == nil {
			return "<nil>"
		}
		return "key:" + x.EncodePrivateKey()
	case *fcrcrypto.KeyVersion:
		if x == nil {
			return "<nil>"
		}
		return fmt.Sprint("version:", x.EncodeKeyVersion())
	case *m.FCRMessage:
		if x == nil {
			return "<nil>"
		}
		return fmt.Sprintf("msg:%d %d %v %x %q", x.GetMessageType(), x.GetProtocolVersion(), x.GetProtocolSupported(), x.GetMessageBody(), x.GetSignature())
	case m.FCRMessage:
		return Show(&x)
	case *cidoffer.CIDOffer:
		if x == nil || x.GetProviderID() == nil {
			return "<nil>"
		}
		b, err := x.MarshalToSign()
		return fmt.Sprintf("offer:%s %s %d %d %d %q %x %s %v", Show(x.GetProviderID()), Show(x.GetCIDs()), x.GetPrice(), x.GetExpiry(), x.GetQoS(), x.GetSignature(), x.GetMessageDigest(), b, err)
	case cidoffer.CIDOffer:
		return Show(&x)
	case *cidoffer.SubCIDOffer:
		if x == nil || x.GetProviderID() == nil || x.GetSubCID() == nil {
			return "<nil>"
		}
		return fmt.Sprintf("part:%s %s %s %s %d %d %d %q", Show(x.GetProviderID()), Show(x.GetSubCID()), x.GetMerkleRoot(), Show(x.GetMerkleProof()), x.GetPrice(), x.GetExpiry(), x.GetQoS(), x.GetSignature())
	case cidoffer.SubCIDOffer:
		return Show(&x)
	case *fcrmerkletree.FCRMerkleProof:
		if x == nil {
			return "<nil>"
		}
		b, err := x.MarshalJSON()
		return fmt.Sprintf("proof:%s %v", b, err)
	case string:
		return fmt.Sprintf("%q", x)
	}
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Slice {
		s := []string{}
		for i := 0; i < r.Len(); i++ {
			s = append(s, Show(r.Index(i).Interface()))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprint(v)
}

// ShowAll writes several out.
func ShowAll(vs []reflect.Value) []string {
	var r []string
	for _, v := range vs {
		r = append(r, Show(v.Interface()))
	}
	return r
}

func cids(hs ...string) (r []cid.ContentID) {
	r = []cid.ContentID{}
	for _, h := range hs {
		c, err := cid.NewContentIDFromHexString(h)
		if err != nil {
			panic(err)
		}
		r = append(r, *c)
	}
	return
}

func nodes(hs ...string) (r []nodeid.NodeID) {
	r = []nodeid.NodeID{}
	for _, h := range hs {
		c, err := nodeid.NewNodeIDFromHexString(h)
		if err != nil {
			panic(err)
		}
		r = append(r, *c)
	}
	return
}

// Offer makes an offer.
func Offer(provider string, price uint64, expiry int64, qos uint64, sig string, hs ...string) cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(&nodes(provider)[0], cids(hs...), price, expiry, qos)
	if err != nil {
		panic(err)
	}
	o.SetSignature(sig)
	return *o
}

// Part makes a part of an offer.
func Part(o cidoffer.CIDOffer, i int) cidoffer.SubCIDOffer {
	p, err := o.GenerateSubCIDOffer(&o.GetCIDs()[i])
	if err != nil {
		panic(err)
	}
	return *p
}

var full = strings.Repeat("f", 64)
var hexes = []string{"2a", "", full, "80" + strings.Repeat("0", 62), "00ff"}

// Strings to try in a text field.
var Strings = []string{"x", "", `a"b\c`, "<&>\u2028\u0000\t\n", "\u00e9\u4e16\U0001f600", "null", "0", strings.Repeat("long ", 2000), "{\"a\":1}"}

// Msg makes a message to nest.
func Msg(typ int32, body string, sig string) m.FCRMessage {
	b, _ := json.Marshal(map[string]interface{}{"message_type": typ, "protocol_version": 1, "protocol_supported": []int{1, 1}, "message_body": []byte(body), "message_signature": sig})
	r, err := m.FCRMsgFromBytes(b)
	if err != nil {
		panic(err)
	}
	return *r
}

func proof(n, i int) fcrmerkletree.FCRMerkleProof {
	var l []merkletree.Content
	for k := 0; k < n; k++ {
		l = append(l, cids(fmt.Sprintf("%02x", k+1))[0])
	}
	// the content to look up is a pointer
	t, err := fcrmerkletree.CreateMerkleTree(l)
	if err != nil {
		panic(err)
	}
	p, err := t.GenerateMerkleProof(&cids(fmt.Sprintf("%02x", i+1))[0])
	if err != nil {
		panic(err)
	}
	return *p
}

// Domain lists the values to try for a type; the first is the plain one.
// Narrow fields of one kind are its name and position.
func Domain(t reflect.Type, kind string, pos int) []interface{} {
	var r []interface{}
	switch reflect.Zero(t).Interface().(type) {
	case *cid.ContentID:
		for _, h := range hexes {
			r = append(r, &cids(h)[0])
		}
	case *nodeid.NodeID:
		for _, h := range hexes {
			r = append(r, &nodes(h)[0])
		}
	case nodeid.NodeID:
		for _, h := range hexes {
			r = append(r, nodes(h)[0])
		}
	case []cid.ContentID:
		r = append(r, cids("2a", "01"), cids(), cids("2a"), cids(hexes...), cids("01", "01", "01"), []cid.ContentID(nil))
	case []nodeid.NodeID:
		r = append(r, nodes("2a", "01"), nodes(), nodes("2a"), nodes(hexes...), nodes("01", "01", "01"), []nodeid.NodeID(nil))
	case *fcrcrypto.KeyPair:
		for _, h := range []string{"5ed053eab6fdf18c03954373ff7f89089992017d56beb8b05305b19800d6afe0", strings.Repeat("0", 63) + "1", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"} {
			kp, err := fcrcrypto.DecodePrivateKey("01" + h)
			if err != nil {
				panic(err)
			}
			r = append(r, kp)
		}
	case *fcrcrypto.KeyVersion:
		for _, v := range []uint32{1, 0, 255, 256, 1 << 31, math.MaxUint32} {
			r = append(r, fcrcrypto.DecodeKeyVersion(v))
		}
	case *m.FCRMessage:
		for _, x := range []m.FCRMessage{Msg(1, "x", "s"), Msg(math.MaxInt32, "", ""), Msg(-1, `{"a":"b"}`, `"`), Msg(302, "\x00\xff\xfe", full)} {
			x := x
			r = append(r, &x)
		}
	case []m.FCRMessage:
		r = append(r, []m.FCRMessage{Msg(1, "x", "s"), Msg(2, "", "")}, []m.FCRMessage{}, []m.FCRMessage{Msg(math.MinInt32, "\x00\xff", `"<`)}, []m.FCRMessage{Msg(1, "x", "s"), Msg(1, "x", "s"), Msg(303, "{}", "")}, []m.FCRMessage(nil))
	case []cidoffer.CIDOffer:
		single := []cidoffer.CIDOffer{Offer("01", 1, 2, 3, "s", "2a"), Offer(full, math.MaxUint64, math.MaxInt64, 0, "", full)}
		r = append(r, single, []cidoffer.CIDOffer{}, single[:1], []cidoffer.CIDOffer{single[0], single[0]}, []cidoffer.CIDOffer(nil))
		if !strings.Contains(kind, "PublishDHTOffer") {
			r = append(r, []cidoffer.CIDOffer{Offer("01", 1, -2, 3, `"`, "2a", "01", "2a"), single[1]})
		}
	case *cidoffer.CIDOffer:
		for _, o := range []cidoffer.CIDOffer{Offer("01", 1, 2, 3, "s", "2a"), Offer(full, math.MaxUint64, math.MaxInt64, 1<<53+1, "", full, "00"), Offer("00", 0, math.MinInt64, 0, `"`, "2a", "2a", "01", "02", "03")} {
			o := o
			r = append(r, &o)
		}
	case []cidoffer.SubCIDOffer:
		a, b := Offer("01", 1, 2, 3, "s", "2a"), Offer(full, math.MaxUint64, math.MaxInt64, 1<<53+1, `"`, full, "00", "01")
		r = append(r, []cidoffer.SubCIDOffer{Part(a, 0), Part(b, 1)}, []cidoffer.SubCIDOffer{}, []cidoffer.SubCIDOffer{Part(b, 2)}, []cidoffer.SubCIDOffer{Part(b, 0), Part(b, 1), Part(b, 2), Part(b, 0)}, []cidoffer.SubCIDOffer(nil))
	case *fcrmerkletree.FCRMerkleProof:
		for _, p := range []fcrmerkletree.FCRMerkleProof{proof(2, 0), proof(1, 0), proof(9, 7), {}} {
			p := p
			r = append(r, &p)
		}
	case string:
		for _, s := range Strings {
			r = append(r, s)
		}
	case []string:
		r = append(r, []string{"x", "y"}, []string{}, []string{""}, Strings, []string{"x", "x", ""}, []string(nil))
	case [][]string:
		r = append(r, [][]string{{"x"}, {"y", "z"}}, [][]string{}, [][]string{{}}, [][]string{{}, Strings, {"x", "x"}, {}}, [][]string(nil))
	case bool:
		r = append(r, true, false)
	case []bool:
		r = append(r, []bool{true, false}, []bool{}, []bool{false}, []bool{true, true, false, true}, []bool(nil))
	case int64:
		r = append(r, int64(42), int64(0), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1<<53+1), int64(-(1<<53 + 1)))
	case int32:
		r = append(r, int32(42), int32(0), int32(-1), int32(math.MaxInt32), int32(math.MinInt32))
	case uint64:
		r = append(r, uint64(42), uint64(0), uint64(math.MaxUint64), uint64(1<<53+1), uint64(1<<63))
	case []int64:
		r = append(r, []int64{4, 5}, []int64{}, []int64{0}, []int64{math.MaxInt64, math.MinInt64, 1<<53 + 1, -1}, []int64(nil))
	case []uint64:
		r = append(r, []uint64{4, 5}, []uint64{}, []uint64{0}, []uint64{math.MaxUint64, 1<<53 + 1}, []uint64(nil))
	default:
		panic(fmt.Sprintf("no values for %v of %s", t, kind))
	}
	return r
}

// Base is the plain argument list of a kind.
func (k Kind) Base() (r []reflect.Value) {
	for i := 0; i < k.Enc.Type().NumIn(); i++ {
		r = append(r, reflect.ValueOf(Domain(k.Enc.Type().In(i), k.Name, i)[0]))
	}
	return
}

// Wire sends a message through its wire form.
func Wire(msg *m.FCRMessage) (*m.FCRMessage, error) {
	b, err := msg.FCRMsgToBytes()
	if err != nil {
		return nil, err
	}
	c, err := m.FCRMsgFromBytes(b)
	if err != nil {
		return nil, err
	}
	b2, err := c.FCRMsgToBytes()
	if err != nil || !bytes.Equal(b, b2) {
		return nil, fmt.Errorf("the wire form changes: %s %s %v", b, b2, err)
	}
	return c, nil
}
