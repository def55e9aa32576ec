//go:build go1.21

// Package vadmin judges an administrator's tool by its answers: a scripted node
// gives every reply, and the tool must report success exactly for genuine ones.
package vadmin

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// Must stops on an error of the harness itself.
func Must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// Ver is the version of the administrator's key, NodeVer that of the node's.
var (
	Ver     = fcrcrypto.DecodeKeyVersion(0x01020304)
	NodeVer = fcrcrypto.DecodeKeyVersion(0x0a0b0c0d)
)

// Key makes the nth key pair and its encoded public half.
func Key(n int) (*fcrcrypto.KeyPair, string) {
	k, err := fcrcrypto.DecodePrivateKey("01" + fmt.Sprintf("%062x%02x", 54321, n+1))
	Must(err)
	p, err := k.EncodePublicKey()
	Must(err)
	return k, p
}

// ID makes the nth identifier.
func ID(n int) *nodeid.NodeID {
	id, err := nodeid.NewNodeIDFromHexString(fmt.Sprintf("%064x", n))
	Must(err)
	return id
}

// Msg takes a message built without error.
func Msg(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage { Must(err); return m }

// Node is the scripted node.
type Node struct {
	Addr string
	mu   sync.Mutex
	f    func(m *fcrmessages.FCRMessage, w http.ResponseWriter)
	got  []*fcrmessages.FCRMessage
}

// NewNode starts one.
func NewNode() *Node {
	n := &Node{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	n.Addr = l.Addr().String()
	go http.Serve(l, n)
	return n
}

func (n *Node) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	b, err := io.ReadAll(q.Body)
	Must(err)
	m, err := fcrmessages.FCRMsgFromBytes(b)
	n.mu.Lock()
	f := n.f
	if err == nil {
		n.got = append(n.got, m)
	}
	n.mu.Unlock()
	if err != nil {
		w.WriteHeader(400)
		return
	}
	f(m, w)
}

// Script sets the answer.
func (n *Node) Script(f func(m *fcrmessages.FCRMessage, w http.ResponseWriter)) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.f, n.got = f, nil
}

// Got is what arrived since the script was set.
func (n *Node) Got() []*fcrmessages.FCRMessage {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.got
}

// Answer is the content of a reply, and whether it says success.
type Answer struct {
	Name string
	Msg  *fcrmessages.FCRMessage
	OK   bool
	Val  string
}

// Op is one operation of the tool.
type Op struct {
	Name string
	// Call runs it against the node registered at an address with a signing key; val is what it reported.
	Call func(addr, signingKey string) (ok bool, val string, err error)
	// Asked tells what is wrong with the request that was sent.
	Asked func(m *fcrmessages.FCRMessage) string
	// Answers are the replies of the right kind.
	Answers []Answer
}

// Envelopes are the ways a reply arrives; only the first is genuine.
var Envelopes = []string{"genuine", "signed by another key", "signed by the root key", "signed by the administrator", "unsigned", "signature of another reply", "signature of the same body under another kind", "damaged signature",
	"error status", "server error", "cut short", "empty", "null", "two replies", "not JSON", "hang up", "unreachable", "another operation's kind", "the request itself"}

// Write sends a reply in an envelope.
func Write(w http.ResponseWriter, env string, req *fcrmessages.FCRMessage, a Answer, others []Answer, node, root, admin, stranger *fcrcrypto.KeyPair) {
	body := append([]byte{}, a.Msg.GetMessageBody()...)
	m := fcrmessages.CreateFCRMessage(a.Msg.GetMessageType(), body)
	sign := func(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair) { Must(m.Sign(k, Ver)) }
	sign(m, node)
	raw := func(m *fcrmessages.FCRMessage) []byte {
		b, err := json.Marshal(m)
		Must(err)
		return b
	}
	resign := func(sig string) []byte {
		var x map[string]interface{}
		Must(json.Unmarshal(raw(m), &x))
		hit := false
		for k := range x {
			if k == "message_signature" || k == "signature" {
				x[k], hit = sig, true
			}
		}
		if !hit {
			panic("harness: no signature field")
		}
		b, _ := json.Marshal(x)
		return b
	}
	switch env {
	case "genuine":
	case "signed by another key":
		sign(m, stranger)
	case "signed by the root key":
		sign(m, root)
	case "signed by the administrator":
		sign(m, admin)
	case "unsigned":
		w.Write(raw(fcrmessages.CreateFCRMessage(a.Msg.GetMessageType(), body)))
		return
	case "signature of another reply":
		o := fcrmessages.CreateFCRMessage(m.GetMessageType(), []byte(`{"other":1}`))
		sign(o, node)
		w.Write(resign(o.GetSignature()))
		return
	case "signature of the same body under another kind":
		o := fcrmessages.CreateFCRMessage(m.GetMessageType()+1, body)
		sign(o, node)
		w.Write(resign(o.GetSignature()))
		return
	case "damaged signature":
		s := []byte(m.GetSignature())
		if i := len(s) / 2; s[i] == '0' {
			s[i] = '1'
		} else {
			s[i] = '0'
		}
		w.Write(resign(string(s)))
		return
	case "error status":
		w.WriteHeader(400)
	case "server error":
		w.WriteHeader(500)
	case "cut short":
		b := raw(m)
		w.Write(b[:len(b)-1])
		return
	case "empty":
		return
	case "null":
		w.Write([]byte("null"))
		return
	case "two replies":
		w.Write(append(raw(m), raw(m)...))
		return
	case "not JSON":
		w.Write([]byte("<html>ok</html>"))
		return
	case "hang up":
		panic(http.ErrAbortHandler)
	case "another operation's kind":
		for _, o := range others {
			if o.OK && o.Msg.GetMessageType() != m.GetMessageType() {
				m = fcrmessages.CreateFCRMessage(o.Msg.GetMessageType(), body)
				sign(m, node)
				break
			}
		}
	case "the request itself":
		m = req
	default:
		panic("harness: " + env)
	}
	w.Write(raw(m))
}

// Run tries every operation with every reply.
func Run(t *vh.T, tool string, ops []Op, node, root, admin, stranger *fcrcrypto.KeyPair, pub, adminPub string) {
	n := NewNode()
	adm, err := fcrcrypto.DecodePublicKey(adminPub)
	Must(err)
	all := []Answer{}
	for _, o := range ops {
		all = append(all, o.Answers...)
	}
	for i, o := range ops {
		for j, a := range o.Answers {
			for _, env := range Envelopes {
				name := fmt.Sprint(tool, ": ", o.Name, ", reply: ", a.Name, ", ", env)
				t.Case(func() string { return name })
				addr := n.Addr
				if env == "unreachable" {
					addr = "127.0.0.1:1"
				}
				// the replies of the operations after this one come first among the others
				others := append([]Answer{}, all[i:]...)
				others = append(others, all[:i]...)
				a, env := a, env
				n.Script(func(m *fcrmessages.FCRMessage, w http.ResponseWriter) {
					Write(w, env, m, a, others, node, root, admin, stranger)
				})
				var ok bool
				var val string
				var err error
				if !t.Try("c31:"+tool+":crash", name, func() { ok, val, err = o.Call(addr, pub) }) {
					continue
				}
				want := env == "genuine" && a.OK
				t.Eval()
				t.Trace()
				t.Transition()
				t.State(name)
				t.Outcome(fmt.Sprint(tool, " ", ok))
				if ok != want {
					t.Violate("c31:"+tool+":"+o.Name+":"+env, fmt.Sprintf("%s: reported success: %v (%v), should be %v", name, ok, err, want), name)
				}
				if want && ok && val != a.Val {
					t.Violate("c31:"+tool+":"+o.Name+":value", fmt.Sprintf("%s: reported %q, the node said %q", name, val, a.Val), name)
				}
				g := n.Got()
				if env != "unreachable" {
					switch {
					case len(g) == 0:
						t.Violate("c31:"+tool+":"+o.Name+":sent", name+": nothing reached the node", name)
					default:
						for _, m := range g {
							if m.Verify(adm) != nil || !versioned(m) {
								t.Violate("c31:"+tool+":"+o.Name+":request key", name+": the command is not signed by the administrator", name)
							} else if s := o.Asked(m); s != "" {
								t.Violate("c31:"+tool+":"+o.Name+":request", name+": the node was commanded something else: "+s, name)
							}
						}
					}
				}
				_ = j
			}
		}
		// a node registered without a usable key cannot be believed
		for _, pk := range []string{"", "zz", "01", "0104"} {
			name := fmt.Sprintf("%s: %s, registered key %q", tool, o.Name, pk)
			t.Case(func() string { return name })
			a := o.Answers[0]
			n.Script(func(m *fcrmessages.FCRMessage, w http.ResponseWriter) {
				Write(w, "genuine", m, a, nil, node, root, admin, stranger)
			})
			var ok bool
			t.Try("c31:"+tool+":crash", name, func() { ok, _, _ = o.Call(n.Addr, pk) })
			t.Eval()
			t.State(name)
			if ok {
				t.Violate("c31:"+tool+":"+o.Name+":no key", name+": reported success", name)
			}
		}
	}
}

// versioned tells whether the message names the version of the administrator's key.
func versioned(m *fcrmessages.FCRMessage) bool {
	v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	return err == nil && v.Equals(Ver)
}
