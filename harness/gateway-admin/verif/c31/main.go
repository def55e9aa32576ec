//go:build go1.21

// Command c31 checks the gateway administrator's tool.
package main

import (
	"fmt"
	"net/http"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"

	"github.com/ConsenSys/fc-retrieval/common/verif/vadmin"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func ids(l []nodeid.NodeID) string {
	s := ""
	for _, x := range l {
		s += x.ToString() + " "
	}
	return s
}

func want(got, exp string, err error) string {
	if err != nil {
		return err.Error()
	}
	if got != exp {
		return "commanded " + got + " instead of " + exp
	}
	return ""
}

func main() {
	vh.Main(func(t *vh.T) {
		node, pub := vadmin.Key(1)
		root, rootPub := vadmin.Key(2)
		admin, adminPub := vadmin.Key(3)
		stranger, _ := vadmin.Key(4)
		me, client := vadmin.ID(7), vadmin.ID(8)
		reg := func(addr, key string) register.GatewayRegistrar {
			return register.NewGatewayRegister(me.ToString(), "t1addr", rootPub, key, "AU", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4", addr)
		}
		a := adminapi.NewAdminApi()
		M := vadmin.Msg
		e := func(err error) (bool, string, error) { return err == nil, "", err }
		yesno := func(enc func(bool) (*fcrmessages.FCRMessage, error)) []vadmin.Answer {
			return []vadmin.Answer{{Name: "done", Msg: M(enc(true)), OK: true}, {Name: "failed", Msg: M(enc(false))}}
		}
		provs := []nodeid.NodeID{*vadmin.ID(21), *vadmin.ID(22)}
		ops := []vadmin.Op{
			{Name: "initialise", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestInitialiseKey(reg(ad, k), node, vadmin.NodeVer, admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, k, v, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequest(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString()+k.EncodePrivateKey()+fmt.Sprint(v.EncodeKeyVersion()), me.ToString()+node.EncodePrivateKey()+fmt.Sprint(vadmin.NodeVer.EncodeKeyVersion()), nil)
			}, Answers: yesno(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse)},
			{Name: "initialise with wallet", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestInitialiseKeyV2(reg(ad, k), node, vadmin.NodeVer, admin, vadmin.Ver, "wallet", "ap", "token"))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, k, v, x, y, z, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString()+k.EncodePrivateKey()+fmt.Sprint(v.EncodeKeyVersion(), x, y, z), me.ToString()+node.EncodePrivateKey()+fmt.Sprint(vadmin.NodeVer.EncodeKeyVersion(), "wallet", "ap", "token"), nil)
			}, Answers: yesno(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse)},
			{Name: "refresh", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestForceRefresh(reg(ad, k), admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				y, err := fcrmessages.DecodeGatewayAdminForceRefreshRequest(m)
				return want(fmt.Sprint(y), "true", err)
			}, Answers: yesno(fcrmessages.EncodeGatewayAdminForceRefreshResponse)},
			{Name: "list", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestListDHTOffer(reg(ad, k), admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				y, err := fcrmessages.DecodeGatewayAdminListDHTOfferRequest(m)
				return want(fmt.Sprint(y), "true", err)
			}, Answers: yesno(fcrmessages.EncodeGatewayAdminListDHTOfferResponse)},
			{Name: "support", Call: func(ad, k string) (bool, string, error) {
				return e(a.SetGroupCIDOfferSupportedForProviders(reg(ad, k), provs, admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, l, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString()+ids(l), me.ToString()+ids(provs), nil)
			}, Answers: yesno(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse)},
			{Name: "get reputation", Call: func(ad, k string) (bool, string, error) {
				v, err := a.RequestGetReputation(reg(ad, k), client, admin, vadmin.Ver)
				return err == nil, fmt.Sprint(v), err
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, err := fcrmessages.DecodeGatewayAdminGetReputationRequest(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString(), client.ToString(), nil)
			}, Answers: []vadmin.Answer{
				{Name: "-5", Msg: M(fcrmessages.EncodeGatewayAdminGetReputationResponse(client, -5, true)), OK: true, Val: "-5"},
				{Name: "large", Msg: M(fcrmessages.EncodeGatewayAdminGetReputationResponse(client, 1<<60+1, true)), OK: true, Val: fmt.Sprint(int64(1<<60 + 1))},
				{Name: "of nobody", Msg: M(fcrmessages.EncodeGatewayAdminGetReputationResponse(client, 4, false))},
				{Name: "of another client", Msg: M(fcrmessages.EncodeGatewayAdminGetReputationResponse(me, 4, true))},
			}},
		}
		for _, v := range []int64{40, 0} {
			v := v
			ops = append(ops, vadmin.Op{Name: fmt.Sprint("set reputation ", v), Call: func(ad, k string) (bool, string, error) {
				y, err := a.RequestSetReputation(reg(ad, k), client, v, admin, vadmin.Ver)
				return err == nil && y, "", err
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, x, err := fcrmessages.DecodeGatewayAdminSetReputationRequest(m)
				if err != nil {
					return err.Error()
				}
				return want(fmt.Sprint(id.ToString(), x), fmt.Sprint(client.ToString(), v), nil)
			}, Answers: []vadmin.Answer{
				{Name: "done", Msg: M(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, v, true)), OK: true},
				{Name: "another value", Msg: M(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, v+1, true))},
				{Name: "no client", Msg: M(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, v, false))},
				{Name: "no client, zero", Msg: M(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, 0, false))},
				{Name: "another client", Msg: M(fcrmessages.EncodeGatewayAdminSetReputationResponse(me, v, true))},
			}})
		}
		vadmin.Run(t, "gateway tool", ops, node, root, admin, stranger, pub, adminPub)

		// histories of the tool: a gateway is in use once it was commanded successfully
		conf := fcrgatewayadmin.CreateSettings()
		conf.SetLogging("fatal", "STDOUT", "x")
		bc, _ := vadmin.Key(9)
		conf.SetBlockchainPrivateKey(bc)
		conf.SetGatewayAdminPrivateKey(admin, vadmin.Ver)
		n := vadmin.NewNode()
		replies := map[int32]*fcrmessages.FCRMessage{}
		for i, ty := range []int32{fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type, fcrmessages.GatewayAdminForceRefreshRequestType, fcrmessages.GatewayAdminListDHTOfferRequestType, fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType} {
			replies[ty] = ops[i].Answers[0].Msg
		}
		type step struct {
			op   int
			node int
			good bool
		}
		steps := []step{}
		for op := 0; op < 5; op++ {
			for nd := 0; nd < 2; nd++ {
				steps = append(steps, step{op, nd, true}, step{op, nd, false})
			}
		}
		opNames := []string{"initialise", "initialise with wallet", "support", "refresh", "list"}
		depth := t.Pick(2, 3)
		if t.Thorough() {
			depth = 3
		}
		var rec func(seq []step)
		rec = func(seq []step) {
			if len(seq) < depth {
				for _, s := range steps {
					rec(append(append([]step{}, seq...), s))
				}
				return
			}
			tool := fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*conf.Build())
			active := map[int]bool{}
			hist := []string{}
			for _, s := range seq {
				hist = append(hist, fmt.Sprint(opNames[s.op], " of gateway ", s.node, ", truthful reply: ", s.good))
				s := s
				n.Script(func(m *fcrmessages.FCRMessage, w http.ResponseWriter) {
					env := "genuine"
					if !s.good {
						env = "signed by another key"
					}
					vadmin.Write(w, env, m, vadmin.Answer{Msg: replies[m.GetMessageType()]}, nil, node, root, admin, stranger)
				})
				id := vadmin.ID(30 + s.node)
				r := register.NewGatewayRegister(id.ToString(), "t1addr", rootPub, pub, "AU", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4", n.Addr)
				var err error
				t.Case(func() string { return fmt.Sprint(hist) })
				t.Try("c31:gateway tool:crash", hist, func() {
					switch s.op {
					case 0:
						err = tool.InitialiseGateway(r, node, vadmin.NodeVer)
					case 1:
						err = tool.InitialiseGatewayV2(r, node, vadmin.NodeVer, "w", "ap", "tok")
					case 2:
						err = tool.UpdateGatewaySupportedFeatures(r, provs)
					case 3:
						err = tool.ForceUpdate(id)
					case 4:
						err = tool.ListDHTOffer(id)
					}
				})
				known := active[s.node]
				exp := s.good
				if s.op >= 3 {
					exp = s.good && known
					if !known && len(n.Got()) > 0 {
						t.Violate("c31:gateway tool:stranger", fmt.Sprint(hist, ": a gateway not in use was commanded"), hist)
					}
				} else if s.good {
					active[s.node] = true
				}
				if (err == nil) != exp {
					t.Violate("c31:gateway tool:history:"+opNames[s.op], fmt.Sprint(hist, ": reported ", err, ", success expected: ", exp), hist)
				}
				t.Transition()
			}
			t.Eval()
			t.Trace()
			t.State(fmt.Sprint("in use: ", active))
		}
		rec(nil)
	})
}
