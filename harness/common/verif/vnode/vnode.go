//go:build go1.21

// Package vnode has what surrounds a real node in a check: a register, peers
// and clients that speak the wire protocol, and a chain with paying accounts.
package vnode

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-address"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
)

// Must stops on an error of the harness itself.
func Must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// Ver is the key version everyone uses: not the one a key starts with, so that a
// party that forgets its version is seen.
var Ver = fcrcrypto.DecodeKeyVersion(0x01020304)

// Ident is a party: an identifier and keys.
type Ident struct {
	Name   string
	Hex    string
	ID     *nodeid.NodeID
	Key    *fcrcrypto.KeyPair
	Pub    string
	PubKey *fcrcrypto.KeyPair
	Wallet vlotus.Account
}

// NewIdent makes the nth party with the given leading byte.
func NewIdent(name string, n int, lead string) *Ident {
	h := lead + strings.Repeat("0", 60-len(lead)+2) + fmt.Sprintf("%02x", n)
	id, err := nodeid.NewNodeIDFromHexString(h)
	Must(err)
	k, err := fcrcrypto.DecodePrivateKey("01" + fmt.Sprintf("%062x%02x", 12345, n+1))
	Must(err)
	pub, err := k.EncodePublicKey()
	Must(err)
	pk, err := fcrcrypto.DecodePublicKey(pub)
	Must(err)
	return &Ident{name, h, id, k, pub, pk, vlotus.NewAccount(byte(n + 1))}
}

// RootPub is the root key in the registrations made here, which signs nothing.
var RootPub = func() string { return NewIdent("root", 200, "ff").Pub }()

// NewIdentID is an identifier alone.
func NewIdentID(lead string, n int) *nodeid.NodeID {
	id, err := nodeid.NewNodeIDFromHexString(lead + fmt.Sprintf("%0*x", 64-len(lead), n))
	Must(err)
	return id
}

// CID of a leading byte and a number.
func CID(lead string, n int) *cid.ContentID {
	c, err := cid.NewContentIDFromHexString(lead + fmt.Sprintf("%0*x", 64-len(lead), n))
	Must(err)
	return c
}

// Sign signs a message.
func (i *Ident) Sign(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	Must(err)
	Must(m.Sign(i.Key, Ver))
	return m
}

// Signed tells whether the party signed the message, naming the version of its key.
func (i *Ident) Signed(m *fcrmessages.FCRMessage) bool {
	if m == nil || m.Verify(i.PubKey) != nil {
		return false
	}
	v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	return err == nil && v.Equals(Ver)
}

// Offer makes a signed offer.
func (i *Ident) Offer(cids []*cid.ContentID, price uint64, expiry int64, qos uint64) *cidoffer.CIDOffer {
	l := []cid.ContentID{}
	for _, c := range cids {
		l = append(l, *c)
	}
	o, err := cidoffer.NewCIDOffer(i.ID, l, price, expiry, qos)
	Must(err)
	Must(o.Sign(i.Key, Ver))
	return o
}

// Bytes is the wire form.
func Bytes(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	Must(err)
	return b
}

// Forever is an expiry that does not come.
var Forever = time.Now().Add(1000 * time.Hour).Unix()

// ---------------------------------------------------------------- register

// Register is a stand-in for the register.
type Register struct {
	mu        sync.Mutex
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister
	raw       map[bool][]byte
	pulls     int
	URL       string
}

// NewRegister starts one.
func NewRegister() *Register {
	r := &Register{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	r.URL = "http://" + l.Addr().String()
	go http.Serve(l, r)
	return r
}

func (r *Register) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	defer r.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
		r.pulls++
	}
	if b, ok := r.raw[strings.HasPrefix(q.URL.Path, "/registers/gateway")]; ok {
		w.Write(b)
		return
	}
	if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
		json.NewEncoder(w).Encode(append([]register.GatewayRegister{}, r.gateways...))
	} else {
		json.NewEncoder(w).Encode(append([]register.ProviderRegister{}, r.providers...))
	}
}

// Pulls is how often the gateways were asked for.
func (r *Register) Pulls() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.pulls
}

// Raw makes the register answer these bytes for its list of gateways, or of providers; with ok unset, what it is.
func (r *Register) Raw(gateways bool, b []byte, ok bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.raw = nil
	if ok {
		r.raw = map[bool][]byte{gateways: b}
	}
}

// List is the register's list as it is sent.
func (r *Register) List(gateways bool) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	var b []byte
	var err error
	if gateways {
		b, err = json.Marshal(r.gateways)
	} else {
		b, err = json.Marshal(r.providers)
	}
	Must(err)
	return b
}

// Gateway puts a gateway in the register; addr serves gateways, addr2 providers.
func (r *Register) Gateway(i *Ident, addr, addr2, client string) {
	r.RawGateway(register.GatewayRegister{NodeID: i.Hex, Address: i.Wallet.Addr.String(), RootSigningKey: RootPub, SigningKey: i.Pub, RegionCode: "AU",
		NetworkInfoGateway: addr, NetworkInfoProvider: addr2, NetworkInfoClient: client, NetworkInfoAdmin: "127.0.0.1:1"})
}

// RawGateway puts any record in, in the place of one of the same identifier.
func (r *Register) RawGateway(g register.GatewayRegister) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.gateways {
		if r.gateways[k].NodeID == g.NodeID {
			r.gateways[k] = g
			return
		}
	}
	r.gateways = append(r.gateways, g)
}

// Provider puts a provider in.
func (r *Register) Provider(i *Ident, addr, client string) {
	r.RawProvider(register.ProviderRegister{NodeID: i.Hex, Address: i.Wallet.Addr.String(), RootSigningKey: RootPub, SigningKey: i.Pub, RegionCode: "AU",
		NetworkInfoGateway: addr, NetworkInfoClient: client, NetworkInfoAdmin: "127.0.0.1:1"})
}

// RawProvider puts any record in.
func (r *Register) RawProvider(g register.ProviderRegister) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.providers {
		if r.providers[k].NodeID == g.NodeID {
			r.providers[k] = g
			return
		}
	}
	r.providers = append(r.providers, g)
}

// ---------------------------------------------------------------- ports

var nextPort = 12000 + (os.Getpid()%90)*200

// Port finds a free port outside the range used for outgoing connections.
func Port() string {
	for {
		nextPort++
		if nextPort > 32000 {
			nextPort = 12000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", nextPort))
		if err == nil {
			l.Close()
			return fmt.Sprint(nextPort)
		}
	}
}

// WaitPort waits until something listens.
func WaitPort(p string) {
	for i := 0; i < 3000; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+p)
		if err == nil {
			c.Close()
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic("harness: the node does not listen on " + p)
}

// ---------------------------------------------------------------- clients

// Reply is what a REST request got.
type Reply struct {
	Status int
	Body   []byte
	Docs   []json.RawMessage
	Err    error
}

// Msg is the reply as a message when it is exactly one.
func (r Reply) Msg() *fcrmessages.FCRMessage {
	if r.Err != nil || r.Status != 200 || len(r.Docs) != 1 {
		return nil
	}
	m, err := fcrmessages.FCRMsgFromBytes(r.Docs[0])
	if err != nil {
		return nil
	}
	return m
}

func (r Reply) String() string {
	b := string(r.Body)
	if len(b) > 600 {
		b = b[:600] + "..."
	}
	return fmt.Sprintf("status %d, %d documents, error %v: %s", r.Status, len(r.Docs), r.Err, b)
}

var httpc = &http.Client{Timeout: 60 * time.Second}

// Post sends bytes to a REST port.
func Post(port string, body []byte) Reply {
	rsp, err := httpc.Post("http://127.0.0.1:"+port+"/v1", "application/json", bytes.NewReader(body))
	if err != nil {
		return Reply{Err: err}
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	if err != nil {
		return Reply{Err: err}
	}
	r := Reply{Status: rsp.StatusCode, Body: b}
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var x json.RawMessage
		err := d.Decode(&x)
		if err == io.EOF {
			break
		}
		if err != nil {
			r.Err = fmt.Errorf("the reply is not JSON: %v", err)
			break
		}
		r.Docs = append(r.Docs, x)
	}
	return r
}

// Send posts a message.
func Send(port string, m *fcrmessages.FCRMessage) Reply { return Post(port, Bytes(m)) }

// WriteFrame writes a length and the bytes.
func WriteFrame(c net.Conn, b []byte) error {
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	_, err := c.Write(append(l, b...))
	return err
}

// ReadFrame reads one.
func ReadFrame(c net.Conn) ([]byte, error) {
	l := make([]byte, 4)
	if _, err := io.ReadFull(c, l); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(l)
	if n > 1<<28 {
		return nil, errors.New("frame too long")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(c, b)
	return b, err
}

// P2P is a connection to a node's P2P port.
type P2P struct {
	Port string
	c    net.Conn
}

// Ask sends one frame and reads one; a nil message with nil error is an undecodable reply.
func (p *P2P) Ask(b []byte) (*fcrmessages.FCRMessage, error) {
	for try := 0; ; try++ {
		fresh := p.c == nil
		if fresh {
			c, err := net.Dial("tcp", "127.0.0.1:"+p.Port)
			if err != nil {
				return nil, err
			}
			p.c = c
		}
		p.c.SetDeadline(time.Now().Add(60 * time.Second))
		err := WriteFrame(p.c, b)
		var r []byte
		if err == nil {
			r, err = ReadFrame(p.c)
		}
		if err != nil {
			p.c.Close()
			p.c = nil
			return nil, err
		}
		m, err := fcrmessages.FCRMsgFromBytes(r)
		if err != nil {
			return nil, fmt.Errorf("undecodable reply: %v", err)
		}
		return m, nil
	}
}

// Tell sends one frame and waits for nothing.
func (p *P2P) Tell(b []byte) {
	if p.c != nil && WriteFrame(p.c, b) != nil {
		p.Close()
	}
}

// Open tells whether there is a connection.
func (p *P2P) Open() bool { return p.c != nil }

// Extra tells whether something more arrives at once.
func (p *P2P) Extra(d time.Duration) bool {
	if p.c == nil {
		return false
	}
	p.c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 1)
	n, _ := p.c.Read(b)
	return n > 0
}

// Close drops the connection.
func (p *P2P) Close() {
	if p.c != nil {
		p.c.Close()
		p.c = nil
	}
}

// ---------------------------------------------------------------- peers

// Peer is a scripted gateway or provider on the P2P side.
type Peer struct {
	*Ident
	Addr string
	mu   sync.Mutex
	got  []*fcrmessages.FCRMessage
	on   func(m *fcrmessages.FCRMessage) []byte
	down bool
	raw  bool
	l    net.Listener
	open map[net.Conn]bool
	wg   sync.WaitGroup
}

// NewPeer starts one; until it has a script it hangs up on everything.
func NewPeer(i *Ident) *Peer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	p := &Peer{Ident: i, Addr: l.Addr().String(), l: l, open: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *Peer) serve(c net.Conn) {
	p.mu.Lock()
	if p.down {
		p.mu.Unlock()
		c.Close()
		return
	}
	p.open[c] = true
	p.mu.Unlock()
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.open, c)
		p.mu.Unlock()
	}()
	for {
		b, err := ReadFrame(c)
		if err != nil {
			return
		}
		m, err := fcrmessages.FCRMsgFromBytes(b)
		if err != nil {
			return
		}
		p.mu.Lock()
		p.got = append(p.got, m)
		f, raw := p.on, p.raw
		p.mu.Unlock()
		if f == nil {
			return
		}
		r := f(m)
		if r == nil {
			return
		}
		if len(r) == 0 {
			continue // says nothing, and waits for more
		}
		if raw {
			if _, err := c.Write(r); err != nil {
				return
			}
		} else if WriteFrame(c, r) != nil {
			return
		}
	}
}

// Frame is a message with its length before it.
func Frame(b []byte) []byte {
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	return append(l, b...)
}

// ScriptRaw is Script for answers written as they are, without a length.
func (p *Peer) ScriptRaw(f func(m *fcrmessages.FCRMessage) []byte) {
	p.Script(f)
	p.mu.Lock()
	p.raw = true
	p.mu.Unlock()
}

// Script sets what the peer answers: nil hangs up, empty says nothing; it forgets what it received.
func (p *Peer) Script(f func(m *fcrmessages.FCRMessage) []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.on, p.got, p.raw = f, nil, false
}

// Down makes the peer refuse connections, and drops those there are.
func (p *Peer) Down(d bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.down = d
	if d {
		for c := range p.open {
			c.Close()
		}
	}
}

// Got is what the peer received since its script was set.
func (p *Peer) Got() []*fcrmessages.FCRMessage {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*fcrmessages.FCRMessage{}, p.got...)
}

// ---------------------------------------------------------------- paying

// Payer pays one recipient over one channel and lane.
type Payer struct {
	Acc   vlotus.Account
	Ch    address.Address
	Lane  uint64
	nonce uint64
	total *big.Int
}

// NewPayer opens a channel on the chain.
func NewPayer(ch *vlotus.Chain, n int, to address.Address, bal int64) *Payer {
	p := &Payer{Acc: vlotus.NewAccount(byte(n)), Ch: vlotus.ActorAddr(1000 + n), total: new(big.Int)}
	ch.Channels = append(ch.Channels, vlotus.NewChannel(p.Ch, p.Acc.Addr, to, big.NewInt(bal)))
	return p
}

// Voucher is worth the amount more than the last.
func (p *Payer) Voucher(amount int64) string {
	p.nonce++
	p.total.Add(p.total, big.NewInt(amount))
	return vlotus.Voucher(p.Acc, p.Ch, p.Lane, p.nonce, p.total, nil)
}

// Forged is signed by someone else.
func (p *Payer) Forged(amount int64) string {
	return vlotus.Voucher(vlotus.NewAccount(251), p.Ch, p.Lane, p.nonce+1, new(big.Int).Add(p.total, big.NewInt(amount)), nil)
}

// Worth tells what a recipient's vouchers are worth, as they arrive.
type Worth struct {
	From address.Address
	seen map[string]*big.Int
}

// Value is what the voucher adds to the earlier ones of its channel and lane.
func (w *Worth) Value(ch *vlotus.Chain, to address.Address, paych, voucher string) (*big.Int, error) {
	sv, err := vlotus.Check(voucher, w.From)
	if err != nil {
		return nil, err
	}
	if sv.ChannelAddr.String() != paych {
		return nil, fmt.Errorf("the voucher is for channel %s, not %s", sv.ChannelAddr, paych)
	}
	c := ch.Find(sv.ChannelAddr)
	if c == nil {
		return nil, errors.New("no such channel")
	}
	if c.To != to || c.From != w.From {
		return nil, fmt.Errorf("the channel is from %s to %s", c.From, c.To)
	}
	if w.seen == nil {
		w.seen = map[string]*big.Int{}
	}
	k := fmt.Sprint(sv.ChannelAddr, sv.Lane)
	last := w.seen[k]
	if last == nil {
		last = new(big.Int)
	}
	if sv.Amount.Int.Cmp(c.Bal()) > 0 {
		return nil, errors.New("the channel does not hold so much")
	}
	w.seen[k] = new(big.Int).Set(sv.Amount.Int)
	return new(big.Int).Sub(sv.Amount.Int, last), nil
}
