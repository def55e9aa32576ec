//go:build go1.21

// Command c31 checks the provider administrator's tool.
package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"

	"github.com/ConsenSys/fc-retrieval/common/verif/vadmin"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func ids(l []nodeid.NodeID) string {
	s := ""
	for _, x := range l {
		s += x.ToString() + " "
	}
	return s
}

func want(got, exp string, err error) string {
	if err != nil {
		return err.Error()
	}
	if got != exp {
		return "commanded " + got + " instead of " + exp
	}
	return ""
}

func main() {
	vh.Main(func(t *vh.T) {
		node, pub := vadmin.Key(1)
		root, rootPub := vadmin.Key(2)
		admin, adminPub := vadmin.Key(3)
		stranger, _ := vadmin.Key(4)
		me := vadmin.ID(7)
		reg := func(addr, key string) register.ProviderRegistrar {
			return register.NewProviderRegister(me.ToString(), "t1addr", rootPub, key, "AU", "127.0.0.1:2", "127.0.0.1:4", addr)
		}
		a := adminapi.NewAdminApi()
		M := vadmin.Msg
		e := func(err error) (bool, string, error) { return err == nil, "", err }
		yesno := func(enc func(bool) (*fcrmessages.FCRMessage, error)) []vadmin.Answer {
			return []vadmin.Answer{{Name: "done", Msg: M(enc(true)), OK: true}, {Name: "failed", Msg: M(enc(false))}}
		}
		c1, err := cid.NewContentIDFromHexString(strings.Repeat("1a", 32))
		vadmin.Must(err)
		c2, err := cid.NewContentIDFromHexString(strings.Repeat("2b", 32))
		vadmin.Must(err)
		cids := []cid.ContentID{*c1, *c2}
		text := func(l []cid.ContentID) string {
			s := ""
			for _, c := range l {
				s += c.ToString() + " "
			}
			return s
		}
		offer := func(l []cid.ContentID, price uint64) cidoffer.CIDOffer {
			o, err := cidoffer.NewCIDOffer(me, l, price, 99, 3)
			vadmin.Must(err)
			vadmin.Must(o.Sign(node, vadmin.NodeVer))
			return *o
		}
		offers := func(l []cidoffer.CIDOffer) string {
			b, err := json.Marshal(l)
			vadmin.Must(err)
			return fmt.Sprint(len(l), string(b))
		}
		none := []cidoffer.CIDOffer{}
		two := []cidoffer.CIDOffer{offer(cids, 5), offer(cids[:1], 6)}
		ops := []vadmin.Op{
			{Name: "initialise", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestInitialiseKey(reg(ad, k), node, vadmin.NodeVer, admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, k, v, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequest(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString()+k.EncodePrivateKey()+fmt.Sprint(v.EncodeKeyVersion()), me.ToString()+node.EncodePrivateKey()+fmt.Sprint(vadmin.NodeVer.EncodeKeyVersion()), nil)
			}, Answers: yesno(fcrmessages.EncodeProviderAdminInitialiseKeyResponse)},
			{Name: "initialise with wallet", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestInitialiseKeyV2(reg(ad, k), node, vadmin.NodeVer, admin, vadmin.Ver, "wallet", "ap", "token"))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				id, k, v, x, y, z, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2(m)
				if err != nil {
					return err.Error()
				}
				return want(id.ToString()+k.EncodePrivateKey()+fmt.Sprint(v.EncodeKeyVersion(), x, y, z), me.ToString()+node.EncodePrivateKey()+fmt.Sprint(vadmin.NodeVer.EncodeKeyVersion(), "wallet", "ap", "token"), nil)
			}, Answers: yesno(fcrmessages.EncodeProviderAdminInitialiseKeyResponse)},
			{Name: "refresh", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestForceRefresh(reg(ad, k), admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				y, err := fcrmessages.DecodeProviderAdminForceRefreshRequest(m)
				return want(fmt.Sprint(y), "true", err)
			}, Answers: yesno(fcrmessages.EncodeProviderAdminForceRefreshResponse)},
			{Name: "publish single offers", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestPublishDHTOffer(reg(ad, k), cids, []uint64{3, 4}, []int64{5, 6}, []uint64{7, 8}, admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				l, p, x, q, err := fcrmessages.DecodeProviderAdminPublishDHTOfferRequest(m)
				return want(fmt.Sprint(text(l), p, x, q), fmt.Sprint(text(cids), []uint64{3, 4}, []int64{5, 6}, []uint64{7, 8}), err)
			}, Answers: yesno(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse)},
			{Name: "publish group offer", Call: func(ad, k string) (bool, string, error) {
				return e(a.RequestPublishGroupOffer(reg(ad, k), cids, 3, 5, 7, admin, vadmin.Ver))
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				l, p, x, q, err := fcrmessages.DecodeProviderAdminPublishGroupOfferRequest(m)
				return want(fmt.Sprint(text(l), p, x, q), fmt.Sprint(text(cids), 3, 5, 7), err)
			}, Answers: yesno(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse)},
			{Name: "get offers", Call: func(ad, k string) (bool, string, error) {
				y, l, err := a.RequestGetPublishedOffer(reg(ad, k), []nodeid.NodeID{*vadmin.ID(21), *vadmin.ID(22)}, admin, vadmin.Ver)
				return err == nil && y, offers(l), err
			}, Asked: func(m *fcrmessages.FCRMessage) string {
				l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferRequest(m)
				return want(ids(l), vadmin.ID(21).ToString()+" "+vadmin.ID(22).ToString()+" ", err)
			}, Answers: []vadmin.Answer{
				{Name: "two", Msg: M(fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(true, two)), OK: true, Val: offers(two)},
				{Name: "none", Msg: M(fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(false, none))},
			}},
		}
		vadmin.Run(t, "provider tool", ops, node, root, admin, stranger, pub, adminPub)

		// histories of the tool: a provider is in use once it was commanded successfully
		conf := fcrprovideradmin.CreateSettings()
		conf.SetLogging("fatal", "STDOUT", "x")
		bc, _ := vadmin.Key(9)
		conf.SetBlockchainPrivateKey(bc)
		conf.SetProviderAdminPrivateKey(admin, vadmin.Ver)
		n := vadmin.NewNode()
		replies := map[int32]*fcrmessages.FCRMessage{}
		for i, ty := range []int32{fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type, fcrmessages.ProviderAdminForceRefreshRequestType, fcrmessages.ProviderAdminPublishDHTOfferRequestType, fcrmessages.ProviderAdminPublishGroupOfferRequestType, fcrmessages.ProviderAdminGetPublishedOfferRequestType} {
			replies[ty] = ops[i].Answers[0].Msg
		}
		type step struct {
			op   int
			node int
			good bool
		}
		steps := []step{}
		for op := 0; op < 6; op++ {
			for nd := 0; nd < 2; nd++ {
				steps = append(steps, step{op, nd, true}, step{op, nd, false})
			}
		}
		opNames := []string{"initialise", "initialise with wallet", "refresh", "publish single offers", "publish group offer", "get offers"}
		depth := t.Pick(2, 3)
		if t.Thorough() {
			depth = 3
		}
		var rec func(seq []step)
		rec = func(seq []step) {
			if len(seq) < depth {
				for _, s := range steps {
					rec(append(append([]step{}, seq...), s))
				}
				return
			}
			tool := fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*conf.Build())
			active := map[int]bool{}
			hist := []string{}
			for _, s := range seq {
				hist = append(hist, fmt.Sprint(opNames[s.op], " of provider ", s.node, ", truthful reply: ", s.good))
				s := s
				n.Script(func(m *fcrmessages.FCRMessage, w http.ResponseWriter) {
					env := "genuine"
					if !s.good {
						env = "signed by another key"
					}
					vadmin.Write(w, env, m, vadmin.Answer{Msg: replies[m.GetMessageType()]}, nil, node, root, admin, stranger)
				})
				id := vadmin.ID(30 + s.node)
				r := register.NewProviderRegister(id.ToString(), "t1addr", rootPub, pub, "AU", "127.0.0.1:2", "127.0.0.1:4", n.Addr)
				var err error
				t.Case(func() string { return fmt.Sprint(hist) })
				t.Try("c31:provider tool:crash", hist, func() {
					switch s.op {
					case 0:
						err = tool.InitialiseProvider(r, node, vadmin.NodeVer)
					case 1:
						err = tool.InitialiseProviderV2(r, node, vadmin.NodeVer, "w", "ap", "tok")
					case 2:
						err = tool.ForceUpdate(id)
					case 3:
						err = tool.PublishDHTCID(id, cids, []uint64{3, 4}, []int64{5, 6}, []uint64{7, 8})
					case 4:
						err = tool.PublishGroupCID(id, cids, 3, 5, 7)
					case 5:
						_, _, err = tool.GetGroupCIDOffer(id, nil)
					}
				})
				known := active[s.node]
				exp := s.good
				if s.op >= 2 {
					exp = s.good && known
					if !known && len(n.Got()) > 0 {
						t.Violate("c31:provider tool:stranger", fmt.Sprint(hist, ": a provider not in use was commanded"), hist)
					}
				} else if s.good {
					active[s.node] = true
				}
				if (err == nil) != exp {
					t.Violate("c31:provider tool:history:"+opNames[s.op], fmt.Sprint(hist, ": reported ", err, ", success expected: ", exp), hist)
				}
				t.Transition()
			}
			t.Eval()
			t.Trace()
			t.State(fmt.Sprint("in use: ", active))
		}
		rec(nil)
	})
}
