//go:build go1.21

// Package offers builds offers for the store harnesses.
package offers

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

// CID makes a content ID from a number.
func CID(n *big.Int) cid.ContentID {
	c, err := cid.NewContentID(n)
	if err != nil {
		panic(err)
	}
	return *c
}

// Offer is an offer description.
type Offer struct {
	Name     string
	Provider int64
	CIDs     []*big.Int
	Price    uint64
	Expiry   int64
	QoS      uint64
	Sig      string
}

// Make builds the real offer.
func (o Offer) Make() *cidoffer.CIDOffer {
	p, err := nodeid.NewNodeID(big.NewInt(o.Provider))
	if err != nil {
		panic(err)
	}
	cs := make([]cid.ContentID, len(o.CIDs))
	for i, n := range o.CIDs {
		cs[i] = CID(n)
	}
	c, err := cidoffer.NewCIDOffer(p, cs, o.Price, o.Expiry, o.QoS)
	if err != nil {
		panic(err)
	}
	c.SetSignature(o.Sig)
	return c
}

// Has tells whether the offer covers a CID.
func (o Offer) Has(n *big.Int) bool {
	for _, c := range o.CIDs {
		if c.Cmp(n) == 0 {
			return true
		}
	}
	return false
}

// Show writes every term of a real offer out.
func Show(c *cidoffer.CIDOffer) string {
	if c == nil {
		return "<nil>"
	}
	s := ""
	for _, x := range c.GetCIDs() {
		s += x.ToString()[56:] + ","
	}
	return fmt.Sprintf("{%s by %s price %d expiry %d qos %d sig %q}", s, c.GetProviderID().ToString()[60:], c.GetPrice(), c.GetExpiry(), c.GetQoS(), c.GetSignature())
}

// ShowAll writes a result out, sorted.
func ShowAll(l []cidoffer.CIDOffer) []string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = Show(&l[i])
	}
	sort.Strings(r)
	return r
}
