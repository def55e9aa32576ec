//go:build go1.21

// Package vlotus is a deterministic in-memory Filecoin chain that stands in for
// the Lotus JSON-RPC endpoint (the instrumenter routes jsonrpc.NewMergeClient
// and NewClient here).  It implements the calls with the chain's own encodings.
package vlotus

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"reflect"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-crypto"
	"github.com/filecoin-project/go-jsonrpc"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/go-state-types/exitcode"
	"github.com/filecoin-project/lotus/api"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
	"github.com/ipfs/go-cid"
	"github.com/minio/blake2b-simd"

	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// Channel is an on-chain payment channel.
type Channel struct {
	Addr     address.Address
	From, To address.Address
	// bal is decimal text: the chain is shared by threads that the race detector
	// watches, and must neither report accesses to itself nor order the threads.
	bal string
}

// NewChannel makes a channel.
func NewChannel(a, from, to address.Address, bal *big.Int) *Channel {
	return &Channel{Addr: a, From: from, To: to, bal: bal.String()}
}

// Bal is the balance.
func (c *Channel) Bal() *big.Int {
	n, _ := new(big.Int).SetString(c.bal, 10)
	return n
}

// Add raises the balance.
func (c *Channel) Add(v *big.Int) { c.bal = new(big.Int).Add(c.Bal(), v).String() }

// Chain is the fake chain.
type Chain struct {
	Channels []*Channel
	receipts []rcpt
	nonce    uint64
	// BadNonces counts messages refused for their nonce.
	BadNonces int
	Calls    int
	// Fault is asked before every call; a non-nil error fails it.
	Fault func(method string) error
	// ExecFail makes the next pushed messages fail on chain.
	ExecFail func(value *big.Int) bool
	// Delay says how many times StateGetReceipt answers "not yet".
	Delay int
	// BadTo makes StateReadState describe something that is not a payment channel.
	Odd func(a address.Address) (*api.ActorState, bool)
	// Points makes every call a scheduling point.
	Points bool
}

type rcpt struct {
	c       cid.Cid
	r       *types.MessageReceipt
	pending int
}

// Current is the chain new clients talk to.
var Current *Chain

// Dial counts client creations that must fail.
var FailDial bool

// NewMergeClient replaces jsonrpc.NewMergeClient.
func NewMergeClient(ctx context.Context, addr string, namespace string, outs []interface{}, h http.Header, opts ...jsonrpc.Option) (jsonrpc.ClientCloser, error) {
	if FailDial {
		return nil, errors.New("dial failed")
	}
	impl := reflect.ValueOf(Current)
	for _, o := range outs {
		v := reflect.ValueOf(o).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() != reflect.Func {
				continue
			}
			name := v.Type().Field(i).Name
			if m := impl.MethodByName(name); m.IsValid() && m.Type() == f.Type() {
				f.Set(m)
				continue
			}
			ft := f.Type()
			f.Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
				outv := make([]reflect.Value, ft.NumOut())
				for k := range outv {
					outv[k] = reflect.Zero(ft.Out(k))
				}
				if len(outv) > 0 {
					e := fmt.Errorf("method %s not supported by the fake chain", name)
					outv[len(outv)-1] = reflect.ValueOf(&e).Elem()
				}
				return outv
			}))
		}
	}
	return func() {}, nil
}

// NewClient replaces jsonrpc.NewClient.
func NewClient(ctx context.Context, addr string, namespace string, handler interface{}, h http.Header) (jsonrpc.ClientCloser, error) {
	return NewMergeClient(ctx, addr, namespace, []interface{}{handler}, h)
}

func (c *Chain) pre(method string) error {
	c.Calls++
	if c.Points {
		vsched.Point("lotus." + method)
	}
	if c.Fault != nil {
		return c.Fault(method)
	}
	return nil
}

func (c *Chain) MpoolGetNonce(ctx context.Context, a address.Address) (uint64, error) {
	if err := c.pre("MpoolGetNonce"); err != nil {
		return 0, err
	}
	return c.nonce, nil
}

func (c *Chain) GasEstimateGasLimit(ctx context.Context, m *types.Message, k types.TipSetKey) (int64, error) {
	if err := c.pre("GasEstimateGasLimit"); err != nil {
		return 0, err
	}
	return 1000, nil
}

func (c *Chain) GasEstimateGasPremium(ctx context.Context, n uint64, a address.Address, l int64, k types.TipSetKey) (types.BigInt, error) {
	if err := c.pre("GasEstimateGasPremium"); err != nil {
		return types.BigInt{}, err
	}
	return types.NewInt(1), nil
}

func (c *Chain) GasEstimateFeeCap(ctx context.Context, m *types.Message, n int64, k types.TipSetKey) (types.BigInt, error) {
	if err := c.pre("GasEstimateFeeCap"); err != nil {
		return types.BigInt{}, err
	}
	return types.NewInt(2), nil
}

// ActorAddr is the address of the n-th channel ever created.
func ActorAddr(n int) address.Address {
	a, err := address.NewActorAddress([]byte(fmt.Sprintf("verif-channel-%d", n)))
	if err != nil {
		panic(err)
	}
	return a
}

// IDAddr is the ID address of the n-th channel.
func IDAddr(n int) address.Address {
	a, err := address.NewIDAddress(uint64(1001 + n))
	if err != nil {
		panic(err)
	}
	return a
}

// Find finds a channel by either of its addresses.
func (c *Chain) Find(a address.Address) *Channel {
	for i, ch := range c.Channels {
		if ch.Addr == a || IDAddr(i) == a {
			return ch
		}
	}
	return nil
}

func (c *Chain) MpoolPush(ctx context.Context, sm *types.SignedMessage) (cid.Cid, error) {
	if err := c.pre("MpoolPush"); err != nil {
		return cid.Undef, err
	}
	m := sm.Message
	sum := blake2b.Sum256(m.Cid().Bytes())
	pub, err := crypto.EcRecover(sum[:], sm.Signature.Data)
	if err != nil {
		return cid.Undef, errors.New("bad message signature")
	}
	if a, _ := address.NewSecp256k1Address(pub); a != m.From {
		return cid.Undef, errors.New("message not signed by its sender")
	}
	if m.Nonce != c.nonce {
		c.BadNonces++
		return cid.Undef, fmt.Errorf("message nonce %d, want %d", m.Nonce, c.nonce)
	}
	c.nonce++
	r := &types.MessageReceipt{}
	if c.ExecFail != nil && c.ExecFail(m.Value.Int) {
		r.ExitCode = exitcode.ErrInsufficientFunds
	} else if ch := c.Find(m.To); ch != nil {
		if m.Method != 0 {
			r.ExitCode = exitcode.ErrForbidden
		} else {
			ch.Add(m.Value.Int)
		}
	} else {
		var ep init4.ExecParams
		var cp paych4.ConstructorParams
		if err := ep.UnmarshalCBOR(bytes.NewReader(m.Params)); err != nil {
			return cid.Undef, errors.New("unknown recipient of message")
		}
		if err := cp.UnmarshalCBOR(bytes.NewReader(ep.ConstructorParams)); err != nil {
			return cid.Undef, err
		}
		ch := NewChannel(ActorAddr(len(c.Channels)), cp.From, cp.To, m.Value.Int)
		l := make([]*Channel, len(c.Channels)+1)
		copy(l, c.Channels)
		l[len(c.Channels)] = ch
		c.Channels = l
		id := IDAddr(len(c.Channels) - 1)
		var b bytes.Buffer
		if err := (&init4.ExecReturn{IDAddress: id, RobustAddress: ch.Addr}).MarshalCBOR(&b); err != nil {
			return cid.Undef, err
		}
		r.Return = b.Bytes()
	}
	k := m.Cid()
	// newest last; look-ups search from the end so that identical messages see their own receipt
	rl := make([]rcpt, len(c.receipts)+1)
	copy(rl, c.receipts)
	rl[len(c.receipts)] = rcpt{k, r, c.Delay}
	c.receipts = rl
	return k, nil
}

func (c *Chain) StateGetReceipt(ctx context.Context, k cid.Cid, ts types.TipSetKey) (*types.MessageReceipt, error) {
	if err := c.pre("StateGetReceipt"); err != nil {
		return nil, err
	}
	for i := len(c.receipts) - 1; i >= 0; i-- {
		x := &c.receipts[i]
		if x.c == k {
			if x.pending > 0 {
				x.pending--
				return nil, nil
			}
			return x.r, nil
		}
	}
	return nil, errors.New("no such message")
}

func (c *Chain) StateReadState(ctx context.Context, a address.Address, ts types.TipSetKey) (*api.ActorState, error) {
	if err := c.pre("StateReadState"); err != nil {
		return nil, err
	}
	if c.Odd != nil {
		if s, ok := c.Odd(a); ok {
			return s, nil
		}
	}
	ch := c.Find(a)
	if ch == nil {
		return nil, errors.New("actor not found")
	}
	return &api.ActorState{Balance: lotusbig.NewFromGo(ch.Bal()), State: map[string]interface{}{
		"From": ch.From.String(), "To": ch.To.String(), "ToSend": "0", "SettlingAt": float64(0), "MinSettleHeight": float64(0),
	}}, nil
}

// StateLookupID resolves a channel to its ID address.
func (c *Chain) StateLookupID(ctx context.Context, a address.Address, ts types.TipSetKey) (address.Address, error) {
	if err := c.pre("StateLookupID"); err != nil {
		return address.Undef, err
	}
	for i, ch := range c.Channels {
		if ch.Addr == a || IDAddr(i) == a {
			return IDAddr(i), nil
		}
	}
	return address.Undef, errors.New("actor not found")
}

func (c *Chain) StateAccountKey(ctx context.Context, a address.Address, ts types.TipSetKey) (address.Address, error) {
	if err := c.pre("StateAccountKey"); err != nil {
		return address.Undef, err
	}
	return a, nil
}

// ---------------------------------------------------------------- accounts and vouchers

// Account is a key pair with deterministic key material.
type Account struct {
	Priv []byte
	Hex  string
	Addr address.Address
}

// NewAccount derives an account from a seed.
func NewAccount(seed byte) Account {
	priv := make([]byte, 32)
	for i := range priv {
		priv[i] = seed + byte(i)*3 + 1
	}
	a, err := address.NewSecp256k1Address(crypto.PublicKey(priv))
	if err != nil {
		panic(err)
	}
	return Account{priv, hex.EncodeToString(priv), a}
}

// Voucher builds and signs a voucher.
func Voucher(signer Account, ch address.Address, lane, nonce uint64, amount *big.Int, mut func(*paych.SignedVoucher)) string {
	sv := &paych.SignedVoucher{ChannelAddr: ch, Lane: lane, Nonce: nonce, Amount: lotusbig.NewFromGo(amount)}
	Sign(signer, sv)
	if mut != nil {
		mut(sv)
	}
	return Encode(sv)
}

// Sign signs a voucher as it is.
func Sign(signer Account, sv *paych.SignedVoucher) {
	sv.Signature = nil
	vb, err := sv.SigningBytes()
	if err != nil {
		panic(err)
	}
	sum := blake2b.Sum256(vb)
	sig, err := crypto.Sign(signer.Priv, sum[:])
	if err != nil {
		panic(err)
	}
	sv.Signature = &crypto2.Signature{Type: crypto2.SigTypeSecp256k1, Data: sig}
}

// Encode is the voucher wire form.
func Encode(sv *paych.SignedVoucher) string {
	var b bytes.Buffer
	if err := sv.MarshalCBOR(&b); err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(b.Bytes())
}

// Check decodes a voucher and verifies that payer signed it.
func Check(v string, payer address.Address) (*paych.SignedVoucher, error) {
	sv, err := paych.DecodeSignedVoucher(v)
	if err != nil {
		return nil, err
	}
	if sv.Signature == nil {
		return nil, errors.New("voucher is not signed")
	}
	vb, err := sv.SigningBytes()
	if err != nil {
		return nil, err
	}
	sum := blake2b.Sum256(vb)
	pub, err := crypto.EcRecover(sum[:], sv.Signature.Data)
	if err != nil {
		return nil, err
	}
	if a, _ := address.NewSecp256k1Address(pub); a != payer {
		return nil, errors.New("voucher signed by another key")
	}
	return sv, nil
}
