//go:build go1.21

// Command c33 checks what settings the gateway-admin library builds from what it was told.
package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"

	"github.com/ConsenSys/fc-retrieval/common/verif/vconf"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vhist"
)

var (
	keys []*fcrcrypto.KeyPair
	seen = map[string]bool{}
)

func key(k *fcrcrypto.KeyPair) string {
	if k == nil {
		return "(no key)"
	}
	return k.EncodePrivateKey()
}

func ver(v *fcrcrypto.KeyVersion) uint32 {
	if v == nil {
		return 0
	}
	return v.EncodeKeyVersion()
}

func main() {
	vh.Main(func(t *vh.T) {
		for i := 0; i < 4; i++ {
			k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
			if err != nil {
				panic(err)
			}
			keys = append(keys, k)
		}
		vhist.Walk(t, "settings of gateway-admin", t.Pick(4, 5), fresh)
	})
}

func values(s *fcrgatewayadmin.GatewayAdminSettings) map[string]string {
	return map[string]string{
		"RegisterURL":          vconf.Text(s.RegisterURL()),
		"BlockchainPrivateKey": key(s.BlockchainPrivateKey()),
		"key":                  key(s.GatewayAdminPrivateKey()),
		"version":              vconf.Text(ver(s.GatewayAdminPrivateKeyVer())),
		"ID":                   "",
	}
}

// fresh is a builder and what can be done with it.
func fresh() []vhist.Op {
	b := fcrgatewayadmin.CreateSettings()
	b.SetLogging("fatal", "STDOUT", "check")
	want := map[string]string{}
	haveKey, haveChain := false, false
	var built []*fcrgatewayadmin.GatewayAdminSettings
	var were []map[string]string
	var l []vhist.Op
	set := func(name, field string, v interface{}, f func()) {
		l = append(l, vhist.Op{Name: name, Do: func() (string, string) {
			f()
			want[field] = vconf.Text(v)
			return "", ""
		}})
	}
	set("SetRegisterURL(1)", "RegisterURL", "http://one", func() { b.SetRegisterURL("http://one") })
	set("SetRegisterURL(2)", "RegisterURL", "http://two", func() { b.SetRegisterURL("http://two") })
	for i := 0; i < 2; i++ {
		i := i
		l = append(l, vhist.Op{Name: "SetGatewayAdminPrivateKey", Do: func() (string, string) {
			b.SetGatewayAdminPrivateKey(keys[i], fcrcrypto.DecodeKeyVersion(uint32(i+5)))
			want["key"], want["version"] = key(keys[i]), vconf.Text(i+5)
			haveKey = true
			return "", ""
		}})
		l = append(l, vhist.Op{Name: "SetBlockchainPrivateKey", Do: func() (string, string) {
			b.SetBlockchainPrivateKey(keys[i+2])
			want["BlockchainPrivateKey"] = key(keys[i+2])
			haveChain = true
			return "", ""
		}})
	}
	l = append(l, vhist.Op{Name: "SetLogging", Do: func() (string, string) {
		b.SetLogging("fatal", "STDOUT", "checked")
		return "", ""
	}})
	build := func() (string, string) {
		var s *fcrgatewayadmin.GatewayAdminSettings
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			s = b.Build()
			return true
		}()
		if ok != haveChain {
			return "built", "settings are built without a key for the blockchain, or not with one"
		}
		if ok {
			v := values(s)
			for f, w := range want {
				if v[f] != w {
					return "setting:" + f, f + " is " + v[f] + " instead of " + w
				}
			}
			if !haveKey {
				if v["version"] != "1" {
					return "version", "a key made up has version " + v["version"]
				}
				if v["key"] == "(no key)" || seen["key "+v["key"]] {
					return "key", "a key made up is none or was made up before"
				}
				seen["key "+v["key"]] = true
			}
			if v["ID"] != "" && (len(v["ID"]) != 64 || seen["ID "+v["ID"]]) {
				return "ID", "an ID made up is none or was made up before"
			}
			seen["ID "+v["ID"]] = true
			built, were = append(built, s), append(were, v)
		}
		for i, s := range built {
			for f, v := range values(s) {
				if v != were[i][f] {
					return "changed:" + f, "settings built earlier change: " + f + " is " + v + " and was " + were[i][f]
				}
			}
		}
		return "", ""
	}
	l = append(l, vhist.Op{Name: "Build", Do: func() (string, string) { return build() }})
	// whatever was set last is looked at too
	for i, o := range l {
		do, i := o.Do, i
		l[i].Do = func() (string, string) {
			if k, w := do(); w != "" {
				return k, w
			}
			if i < len(l)-1 && haveChain {
				return build()
			}
			return "", ""
		}
	}
	return l
}
