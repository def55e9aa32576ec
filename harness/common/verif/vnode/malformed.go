//go:build go1.21

package vnode

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"github.com/ConsenSys/fc-retrieval/common/verif/jmut"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// odd is the narrower menu of values used in pairs.
var odd = []string{"null", "empty text", "-2^63", "max int64", "empty list", "not hex", "a list of null"}

// Malformed sends every alteration of every request a node serves, signed by who sends it, and requires that each is
// answered in some way - a reply, a refusal or the end of the connection -, within time, and that the node afterwards
// still answers the genuine request. Before the node is ready nothing is required of that answer. restore is called
// after alterations of requests that may really change the node.
func Malformed(t *vh.T, node string, doors []Door, served []Served, ready bool, restore func(s Served)) {
	at := map[string]Door{}
	for _, d := range doors {
		at[d.Name] = d
	}
	tell := func(d Door, b []byte, desc string) (kind string) {
		began := time.Now()
		if d.P2P == nil {
			r := Post(d.Port, b)
			kind = fmt.Sprint("status ", r.Status)
			switch {
			case r.Status == 0:
				t.Violate("c21:"+node+":none", fmt.Sprintf("%s: no answer: %v", desc, r.Err), desc)
			case bytes.Contains(r.Body, []byte("goroutine ")) || strings.Contains(string(r.Body), "runtime error"):
				t.Violate("c21:"+node+":panic", desc+": the handler panicked: "+r.String(), desc)
			}
		} else {
			r, err := d.P2P.Ask(b)
			if err != nil {
				kind = "closed"
				if e, ok := err.(net.Error); ok && e.Timeout() {
					kind = "silent"
				}
			} else {
				kind = fmt.Sprint("type ", r.GetMessageType())
			}
		}
		if e := time.Since(began); e > 20*time.Second {
			t.Violate("c21:"+node+":hang", fmt.Sprintf("%s: took %v (%s)", desc, e, kind), desc)
		}
		return kind
	}
	for _, s := range served {
		d := at[s.Door]
		if !ready && d.Name == "admin" {
			continue // would make it ready
		}
		good := s.Make()
		send := func(x jmut.Mut, b []byte, what string) {
			desc := fmt.Sprintf("%s, ready %v: %s of type %d at its %s port with %s: %s", node, ready, what, s.Type, d.Name, x.String(), cut(x.Body))
			t.Case(func() string { return desc })
			t.Eval()
			kind := tell(d, b, desc)
			t.Distinct(fmt.Sprint(node, ready, what, s.Type, x.String()))
			t.Outcome(fmt.Sprintf("%s %s %s: %s", node, d.Name, what, kind))
			if restore != nil {
				restore(s)
			}
			if !ready {
				return
			}
			if s.Last && d.P2P != nil {
				d.P2P.Close()
			}
			if d.P2P != nil && d.P2P.Open() && kind != fmt.Sprint("type ", fcrmessages.InvalidMessageResponseType) {
				// whatever was answered, more than once would answer the next request
				d.P2P.Close()
			}
			g := s.Make()
			var r *fcrmessages.FCRMessage
			var got string
			if d.P2P == nil {
				x := Send(d.Port, g)
				r, got = x.Msg(), x.String()
			} else {
				var err error
				r, err = d.P2P.Ask(Bytes(g))
				got = fmt.Sprint(r, err)
			}
			if r == nil || r.GetMessageType() != s.Reply {
				t.Violate("c21:"+node+":after", fmt.Sprintf("%s: the genuine request sent next is not answered: %s", desc, cut([]byte(got))), desc)
			}
			if s.Last && d.P2P != nil {
				d.P2P.Close()
			}
		}
		altered := func(x jmut.Mut) {
			m := fcrmessages.CreateFCRMessage(good.GetMessageType(), x.Body)
			if s.By != nil {
				m = s.By.Sign(m, nil)
			}
			send(x, Bytes(m), "a request")
		}
		body := good.GetMessageBody()
		jmut.One(body, altered)
		if t.Thorough() && len(body) < 700 {
			jmut.Two(body, odd, altered)
		}
		for _, b := range whole {
			altered(jmut.Mut{Where: "whole", What: "replaced", Body: b})
		}
		// the message around it: signature, versions and all
		step := 29
		if t.Thorough() {
			step = 3
		}
		jmut.One(Bytes(good), func(x jmut.Mut) { send(x, x.Body, "the message") })
		jmut.Texts(Bytes(good), step, func(x jmut.Mut) { send(x, x.Body, "the message") })
	}
}

func cut(b []byte) string {
	if len(b) > 900 {
		return string(b[:900]) + "..."
	}
	return string(b)
}

// whole are texts in the place of a whole body.
var whole = [][]byte{nil, []byte("null"), []byte("[]"), []byte("[null]"), []byte("0"), []byte(`""`), []byte("{}"), []byte("[{}]"), []byte("{"), {0xff, 0}, bytes.Repeat([]byte("["), 20000)}

// alterations lists what is made of a body.
func alterations(body []byte) (r []jmut.Mut) {
	jmut.One(body, func(x jmut.Mut) {
		x.Body = append([]byte{}, x.Body...)
		r = append(r, x)
	})
	for i, b := range whole {
		r = append(r, jmut.Mut{Where: "whole", What: fmt.Sprint("replaced ", i), Body: b})
	}
	return r
}

// Question is something the node asks its peers: Ask has it ask - and tells what was got of it, empty if that was not
// as it should be with a good reply -, Reply is the peer's good reply.
type Question struct {
	Name  string
	Ask   func() string
	Reply func(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage // nil if the message is none of it
}

// Replies alters the reply of a peer to each question in every way, its body signed by the peer or all of it as it is
// sent; the node is to get over each in time, and afterwards to get on with the good reply.
func Replies(t *vh.T, node string, peer *Peer, qs []Question) {
	for _, q := range qs {
		q := q
		total := map[bool]int{true: 1, false: 1}
		alter, wire := -1, false
		what := ""
		peer.Script(func(m *fcrmessages.FCRMessage) []byte {
			r := q.Reply(m)
			if r == nil {
				return []byte{}
			}
			peer.Sign(r, nil)
			if alter < 0 {
				return Bytes(r)
			}
			b := r.GetMessageBody()
			if wire {
				b = Bytes(r)
			}
			l := alterations(b)
			total[wire] = len(l)
			if alter >= len(l) {
				return Bytes(r)
			}
			what = l[alter].String()
			if wire {
				if len(l[alter].Body) == 0 {
					return []byte("{") // an empty frame would be none here
				}
				return l[alter].Body
			}
			return Bytes(peer.Sign(fcrmessages.CreateFCRMessage(r.GetMessageType(), l[alter].Body), nil))
		})
		for _, wire = range []bool{false, true} {
			for i := 0; i < total[wire]; i++ {
				desc := fmt.Sprintf("%s, %s: alteration %d of the reply, whole message %v", node, q.Name, i, wire)
				t.Case(func() string { return desc })
				t.Eval()
				alter = i
				began := time.Now()
				got := q.Ask()
				alter = -1
				t.Distinct(desc)
				t.Outcome(fmt.Sprintf("%s %s: answered %v", node, q.Name, got != ""))
				if e := time.Since(began); e > 20*time.Second {
					t.Violate("c21:"+node+":reply:hang", fmt.Sprintf("%s (%s): took %v", desc, what, e), desc)
				}
				// a connection given up may be found out only by the next request
				q.Ask()
				if q.Ask() == "" {
					t.Violate("c21:"+node+":reply:after", fmt.Sprintf("%s (%s): the good reply to the same question afterwards does not do", desc, what), desc)
				}
			}
		}
		peer.Script(nil)
	}
}

// Registers alters the register's lists in every way; with each, the node reads it and does its work, and is to answer
// in time; with the good list, the work is to succeed again.
func Registers(t *vh.T, node string, reg *Register, refresh func() string, work []func() string) {
	for _, gws := range []bool{true, false} {
		for i, x := range alterations(reg.List(gws)) {
			if !t.Mine(i) {
				continue
			}
			desc := fmt.Sprintf("%s: the register's list (of gateways %v) with %s: %s", node, gws, x.String(), cut(x.Body))
			t.Case(func() string { return desc })
			t.Eval()
			t.Distinct(desc)
			timed := func(what string, f func() string) string {
				began := time.Now()
				r := f()
				if e := time.Since(began); e > 25*time.Second {
					t.Violate("c21:"+node+":register:hang", fmt.Sprintf("%s: %s took %v", desc, what, e), desc)
				}
				return r
			}
			reg.Raw(gws, x.Body, true)
			if timed("reading it", refresh) == "" {
				t.Violate("c21:"+node+":register", desc+": the command to read it is not answered", desc)
			}
			for k, w := range work {
				ok := timed(fmt.Sprint("task ", k), w) != ""
				t.Outcome(fmt.Sprintf("%s task %d: done %v", node, k, ok))
			}
			reg.Raw(gws, nil, false)
			refresh()
			for k, w := range work {
				w()
				if timed(fmt.Sprint("task ", k), w) == "" {
					t.Violate("c21:"+node+":register:after", fmt.Sprintf("%s: with the good list again, task %d fails", desc, k), desc)
				}
			}
		}
	}
}
