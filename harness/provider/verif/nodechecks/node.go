//go:build go1.21

// Package nodechecks drives a whole provider - its real main, servers, handlers
// and store - over its REST and P2P ports.
package nodechecks

import (
	"encoding/json"
	"os"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

var checks = map[string]func(t *vh.T, main func()){}

// Run runs a check; it does not return.
func Run(id string, main func()) {
	f := checks[id]
	if f == nil {
		panic("harness: no check " + id)
	}
	vh.Main(func(t *vh.T) { f(t, main) })
}

// Node is a running provider.
type Node struct {
	T               *vh.T
	Reg             *vnode.Register
	Me              *vnode.Ident
	Rest, Admin, Gw string
	G               *vnode.P2P
}

// Start runs the provider; more settings may be given as name=value.
func Start(t *vh.T, main func(), env ...string) *Node {
	n := &Node{T: t, Reg: vnode.NewRegister()}
	vlotus.Current = &vlotus.Chain{}
	n.Me = vnode.NewIdent("node", 1, "80")
	n.Rest, n.Admin, n.Gw = vnode.Port(), vnode.Port(), vnode.Port()
	n.G = &vnode.P2P{Port: n.Gw}
	log := os.Getenv("VERIF_LOG")
	if log == "" {
		log = "fatal"
	}
	for k, v := range map[string]string{
		"BIND_REST_API": n.Rest, "BIND_ADMIN_API": n.Admin, "BIND_GATEWAY_API": n.Gw,
		"REGISTER_API_URL": n.Reg.URL, "PROVIDER_SIG_ALG": "1", "REGISTER_REFRESH_DURATION": "5h",
		"TCP_INACTIVITY_TIMEOUT": "5s", "TCP_LONG_INACTIVITY_TIMEOUT": "5s", "LOG_LEVEL": log, "LOG_TARGET": "STDOUT", "LOG_SERVICE_NAME": "provider",
	} {
		os.Setenv(k, v)
	}
	for _, e := range env {
		i := strings.Index(e, "=")
		os.Setenv(e[:i], e[i+1:])
	}
	os.Args = os.Args[:1]
	n.Reg.Provider(n.Me, "127.0.0.1:"+n.Gw, "127.0.0.1:"+n.Rest)
	go main()
	for _, p := range []string{n.Rest, n.Admin, n.Gw} {
		vnode.WaitPort(p)
	}
	return n
}

// Clear takes the node back to before its first command.
func (n *Node) Clear() {
	c := core.GetSingleInstance()
	c.ProviderID, c.ProviderPrivateKey, c.ProviderPrivateKeyVersion, c.PaymentMgr = nil, nil, nil, nil
	c.OffersMgr = fcroffermgr.NewFCROfferMgr()
	c.NodeOfferMap = map[string][]cidoffer.CIDOffer{}
	c.AcknowledgementMap = map[string]map[string]core.DHTAcknowledgement{}
	c.GroupOfferGatewayIDs = []nodeid.NodeID{}
}

// Init gives the node its key.
func (n *Node) Init() {
	m, err := fcrmessages.EncodeProviderAdminInitialiseKeyRequest(n.Me.ID, n.Me.Key, vnode.Ver)
	r := vnode.Send(n.Admin, n.Me.Sign(m, err))
	if m := r.Msg(); !n.Me.Signed(m) {
		n.T.Violate("setup:init", "installing a key failed: "+r.String(), nil)
		panic("the node cannot be set up: " + r.String())
	}
}

// Refresh has the node read the register.
func (n *Node) Refresh() {
	m, err := fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
	r := vnode.Send(n.Admin, n.Me.Sign(m, err))
	if m := r.Msg(); !n.Me.Signed(m) {
		panic("the node cannot read the register: " + r.String())
	}
}

// Offer writes all of an offer out.
func Offer(o *cidoffer.CIDOffer) string {
	b, err := json.Marshal(o)
	vnode.Must(err)
	return string(b)
}
