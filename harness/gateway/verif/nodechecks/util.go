//go:build go1.21

package nodechecks

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func subs(s ...*cidoffer.SubCIDOffer) []cidoffer.SubCIDOffer {
	r := []cidoffer.SubCIDOffer{}
	for _, x := range s {
		r = append(r, *x)
	}
	return r
}

func object(b []byte) map[string]json.RawMessage {
	var m map[string]json.RawMessage
	vnode.Must(json.Unmarshal(b, &m))
	return m
}

func fieldName(m map[string]json.RawMessage, name string) string {
	for k := range m {
		if k == name || k == "message_"+name {
			return k
		}
	}
	panic("harness: no field " + name)
}

func field(b []byte, name string) json.RawMessage {
	m := object(b)
	return m[fieldName(m, name)]
}

func setField(b []byte, name string, v json.RawMessage) []byte {
	m := object(b)
	k := name
	for x := range m {
		if x == "message_"+name {
			k = x
		}
	}
	m[k] = v
	o, err := json.Marshal(m)
	vnode.Must(err)
	return o
}
