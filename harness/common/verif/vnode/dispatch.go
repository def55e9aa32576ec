//go:build go1.21

package vnode

import (
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// Door is a port of a node.
type Door struct {
	Name, Port string
	P2P        *P2P // nil for REST
}

// Served is a request a node answers at a door.
type Served struct {
	Door        string
	Type, Reply int32
	By          *Ident
	Make        func() *fcrmessages.FCRMessage
	Last        bool // the connection is given up after it
}

// Dispatch sends requests of every type to every door. With ready, those served are to be answered by their kind of
// reply; all others are to be refused, and to change nothing.
func Dispatch(t *vh.T, node string, doors []Door, served []Served, ready bool, changed func() string) {
	types := []int32{-1, -100, 65536 + 100, 65536 + 400}
	for i := int32(0); i <= 1000; i++ {
		types = append(types, i)
	}
	make_ := map[int32][]Served{}
	at := map[string]*Served{}
	for i := range served {
		s := &served[i]
		make_[s.Type] = append(make_[s.Type], *s)
		at[fmt.Sprint(s.Door, s.Type)] = s
	}
	for _, ty := range types {
		for _, d := range doors {
			s := at[fmt.Sprint(d.Name, ty)]
			if s != nil && !ready {
				continue
			}
			ms := []*fcrmessages.FCRMessage{}
			if s != nil {
				ms = append(ms, s.Make())
			} else {
				for _, o := range make_[ty] {
					ms = append(ms, o.Make())
				}
				if len(ms) == 0 {
					ms = append(ms, fcrmessages.CreateFCRMessage(ty, []byte("{}")))
				}
			}
			for _, m := range ms {
				desc := fmt.Sprintf("%s, ready %v: type %d sent to its %s port", node, ready, ty, d.Name)
				t.Case(func() string { return desc })
				t.Eval()
				t.Transition()
				t.State(desc)
				var got string
				var r *fcrmessages.FCRMessage
				refused := false
				if d.P2P == nil {
					x := Send(d.Port, m)
					got, refused = x.String(), x.Status >= 400 && x.Status < 600
					if x.Status == 200 {
						r = x.Msg()
					}
				} else {
					var err error
					r, err = d.P2P.Ask(Bytes(m))
					if err != nil {
						got = err.Error()
					} else {
						got = fmt.Sprint("type ", r.GetMessageType())
						refused = r.GetMessageType() == fcrmessages.InvalidMessageResponseType
					}
				}
				switch {
				case s == nil && !refused:
					t.Violate("c26:"+node+":refuse", desc+": it is not served there, yet it is answered: "+got, desc)
				case s != nil && (r == nil || r.GetMessageType() != s.Reply):
					t.Violate("c26:"+node+":serve", fmt.Sprintf("%s: to be answered with type %d: %s", desc, s.Reply, got), desc)
				}
				if s == nil {
					if c := changed(); c != "" {
						t.Violate("c26:"+node+":change", desc+": it changes the node: "+c, desc)
					}
				}
				if s != nil && s.Last {
					d.P2P.Close()
				}
				t.Outcome(fmt.Sprintf("%s %s: refused %v", node, d.Name, refused))
				t.Trace()
			}
		}
	}
}
