//go:build go1.21

// Command c33 checks what settings the client library builds from what it was told.
package main

import (
	"math/big"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/common/verif/vconf"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
)

var (
	keys []*fcrcrypto.KeyPair
	seen = map[string]bool{}
)

func key(k *fcrcrypto.KeyPair) string {
	if k == nil {
		return "(no key)"
	}
	return k.EncodePrivateKey()
}

func ver(v *fcrcrypto.KeyVersion) uint32 {
	if v == nil {
		return 0
	}
	return v.EncodeKeyVersion()
}

func id(n *nodeid.NodeID) string {
	if n == nil {
		return "(no ID)"
	}
	return n.ToString()
}

func num(n int64) *big.Int { return big.NewInt(n) }

func main() {
	vh.Main(func(t *vh.T) {
		for i := 0; i < 4; i++ {
			k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
			if err != nil {
				panic(err)
			}
			keys = append(keys, k)
		}
		vhist.Walk(t, "settings of client", t.Pick(4, 5), fresh)
	})
}

func values(s *fcrclient.ClientSettings) map[string]string {
	return map[string]string{
		"EstablishmentTTL":     vconf.Text(s.EstablishmentTTL()),
		"RegisterURL":          vconf.Text(s.RegisterURL()),
		"WalletPrivateKey":     vconf.Text(s.WalletPrivateKey()),
		"LotusAP":              vconf.Text(s.LotusAP()),
		"LotusAuthToken":       vconf.Text(s.LotusAuthToken()),
		"SearchPrice":          vconf.Text(s.SearchPrice()),
		"OfferPrice":           vconf.Text(s.OfferPrice()),
		"TopUpAmount":          vconf.Text(s.TopUpAmount()),
		"BlockchainPrivateKey": key(s.BlockchainPrivateKey()),
		"key":                  key(s.RetrievalPrivateKey()),
		"version":              vconf.Text(ver(s.RetrievalPrivateKeyVer())),
		"ID":                   id(s.ClientID()),
	}
}

// fresh is a builder and what can be done with it.
func fresh() []vhist.Op {
	b := fcrclient.CreateSettings()
	b.SetLogging("fatal", "STDOUT", "check")
	want := map[string]string{
		"EstablishmentTTL": "100",
		"RegisterURL":      "http://register:9020",
		"WalletPrivateKey": "",
		"LotusAP":          "",
		"LotusAuthToken":   "",
		"SearchPrice":      "1000000000000000",
		"OfferPrice":       "1000000000000000",
		"TopUpAmount":      "100000000000000000",
	}
	haveKey, haveChain := false, false
	var built []*fcrclient.ClientSettings
	var were []map[string]string
	var l []vhist.Op
	set := func(name, field string, v interface{}, f func()) {
		l = append(l, vhist.Op{Name: name, Do: func() (string, string) {
			f()
			want[field] = vconf.Text(v)
			return "", ""
		}})
	}
	set("SetEstablishmentTTL(1)", "EstablishmentTTL", int64(7), func() { b.SetEstablishmentTTL(int64(7)) })
	set("SetEstablishmentTTL(2)", "EstablishmentTTL", int64(0), func() { b.SetEstablishmentTTL(int64(0)) })
	set("SetRegisterURL(1)", "RegisterURL", "http://one", func() { b.SetRegisterURL("http://one") })
	set("SetRegisterURL(2)", "RegisterURL", "", func() { b.SetRegisterURL("") })
	set("SetWalletPrivateKey(1)", "WalletPrivateKey", "wallet", func() { b.SetWalletPrivateKey("wallet") })
	set("SetLotusAP(1)", "LotusAP", "lotus", func() { b.SetLotusAP("lotus") })
	set("SetLotusAuthToken(1)", "LotusAuthToken", "token", func() { b.SetLotusAuthToken("token") })
	set("SetSearchPrice(1)", "SearchPrice", num(3), func() { b.SetSearchPrice(num(3)) })
	set("SetSearchPrice(2)", "SearchPrice", num(0), func() { b.SetSearchPrice(num(0)) })
	set("SetOfferPrice(1)", "OfferPrice", num(4), func() { b.SetOfferPrice(num(4)) })
	set("SetTopUpAmount(1)", "TopUpAmount", num(5), func() { b.SetTopUpAmount(num(5)) })
	for i := 0; i < 2; i++ {
		i := i
		l = append(l, vhist.Op{Name: "SetRetrievalPrivateKey", Do: func() (string, string) {
			b.SetRetrievalPrivateKey(keys[i], fcrcrypto.DecodeKeyVersion(uint32(i+5)))
			want["key"], want["version"] = key(keys[i]), vconf.Text(i+5)
			haveKey = true
			return "", ""
		}})
		l = append(l, vhist.Op{Name: "SetBlockchainPrivateKey", Do: func() (string, string) {
			b.SetBlockchainPrivateKey(keys[i+2])
			want["BlockchainPrivateKey"] = key(keys[i+2])
			haveChain = true
			return "", ""
		}})
	}
	l = append(l, vhist.Op{Name: "SetLogging", Do: func() (string, string) {
		b.SetLogging("fatal", "STDOUT", "checked")
		return "", ""
	}})
	build := func() (string, string) {
		var s *fcrclient.ClientSettings
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			s = b.Build()
			return true
		}()
		if ok != haveChain {
			return "built", "settings are built without a key for the blockchain, or not with one"
		}
		if ok {
			v := values(s)
			for f, w := range want {
				if v[f] != w {
					return "setting:" + f, f + " is " + v[f] + " instead of " + w
				}
			}
			if !haveKey {
				if v["version"] != "1" {
					return "version", "a key made up has version " + v["version"]
				}
				if v["key"] == "(no key)" || seen["key "+v["key"]] {
					return "key", "a key made up is none or was made up before"
				}
				seen["key "+v["key"]] = true
			}
			if v["ID"] != "" && (len(v["ID"]) != 64 || seen["ID "+v["ID"]]) {
				return "ID", "an ID made up is none or was made up before"
			}
			seen["ID "+v["ID"]] = true
			built, were = append(built, s), append(were, v)
		}
		for i, s := range built {
			for f, v := range values(s) {
				if v != were[i][f] {
					return "changed:" + f, "settings built earlier change: " + f + " is " + v + " and was " + were[i][f]
				}
			}
		}
		return "", ""
	}
	l = append(l, vhist.Op{Name: "Build", Do: func() (string, string) { return build() }})
	// whatever was set last is looked at too
	for i, o := range l {
		do, i := o.Do, i
		l[i].Do = func() (string, string) {
			if k, w := do(); w != "" {
				return k, w
			}
			if i < len(l)-1 && haveChain {
				return build()
			}
			return "", ""
		}
	}
	return l
}
