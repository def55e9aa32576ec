//go:build go1.21

// Command c33 checks what a gateway takes from the settings given to it.
package main

import (
	"time"

	"github.com/ConsenSys/fc-retrieval/gateway/config"

	"github.com/ConsenSys/fc-retrieval/common/verif/vconf"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func main() {
	vh.Main(func(t *vh.T) {
		vconf.Check(t, []vconf.Setting{
			{"BIND_REST_API", vconf.Str, nil}, {"BIND_PROVIDER_API", vconf.Str, nil}, {"BIND_GATEWAY_API", vconf.Str, nil}, {"BIND_ADMIN_API", vconf.Str, nil}, {"GATEWAY_ID", vconf.Str, nil}, {"GATEWAY_ADDRESS", vconf.Str, nil}, {"GATEWAY_REGION_CODE", vconf.Str, nil}, {"GATEWAY_ROOT_SIGNING_KEY", vconf.Str, nil}, {"GATEWAY_SIGNING_KEY", vconf.Str, nil},
			{"LOG_LEVEL", vconf.Str, nil}, {"LOG_TARGET", vconf.Str, nil}, {"LOG_DIR", vconf.Str, nil}, {"LOG_FILE", vconf.Str, nil},
			{"LOG_MAX_BACKUPS", vconf.Int, nil}, {"LOG_MAX_AGE", vconf.Int, nil}, {"LOG_MAX_SIZE", vconf.Int, nil}, {"LOG_COMPRESS", vconf.Bool, nil},
			{"REGISTER_API_URL", vconf.Str, nil}, {"REGISTER_REFRESH_DURATION", vconf.Dur, 5 * time.Second},
			{"TCP_INACTIVITY_TIMEOUT", vconf.Dur, 100 * time.Millisecond}, {"TCP_LONG_INACTIVITY_TIMEOUT", vconf.Dur, 5 * time.Second},
			{"SEARCH_PRICE", vconf.Amount, "1000000000000000"}, {"OFFER_PRICE", vconf.Amount, "1000000000000000"}, {"TOPUP_AMOUNT", vconf.Amount, "100000000000000000"},
			{"IP", vconf.Addr, "127.0.0.1"},
		}, map[string]string{
			"BindRestAPI":              "BIND_REST_API",
			"BindProviderAPI":          "BIND_PROVIDER_API",
			"BindGatewayAPI":           "BIND_GATEWAY_API",
			"BindAdminAPI":             "BIND_ADMIN_API",
			"GatewayID":                "GATEWAY_ID",
			"GatewayAddress":           "GATEWAY_ADDRESS",
			"GatewayRegionCode":        "GATEWAY_REGION_CODE",
			"GatewayRootSigningKey":    "GATEWAY_ROOT_SIGNING_KEY",
			"GatewaySigningKey":        "GATEWAY_SIGNING_KEY",
			"NetworkInfoGateway":       "IP:BIND_GATEWAY_API",
			"NetworkInfoClient":        "IP:BIND_REST_API",
			"NetworkInfoProvider":      "IP:BIND_PROVIDER_API",
			"NetworkInfoAdmin":         "IP:BIND_ADMIN_API",
			"LogLevel":                 "LOG_LEVEL",
			"LogTarget":                "LOG_TARGET",
			"LogDir":                   "LOG_DIR",
			"LogFile":                  "LOG_FILE",
			"LogMaxBackups":            "LOG_MAX_BACKUPS",
			"LogMaxAge":                "LOG_MAX_AGE",
			"LogMaxSize":               "LOG_MAX_SIZE",
			"LogCompress":              "LOG_COMPRESS",
			"RegisterAPIURL":           "REGISTER_API_URL",
			"RegisterRefreshDuration":  "REGISTER_REFRESH_DURATION",
			"TCPInactivityTimeout":     "TCP_INACTIVITY_TIMEOUT",
			"TCPLongInactivityTimeout": "TCP_LONG_INACTIVITY_TIMEOUT",
			"SearchPrice":              "SEARCH_PRICE",
			"OfferPrice":               "OFFER_PRICE",
			"TopupAmount":              "TOPUP_AMOUNT",
		}, func() map[string]string {
			s := config.Map(config.NewConfig())
			return map[string]string{
				"BindRestAPI":              vconf.Text(s.BindRestAPI),
				"BindProviderAPI":          vconf.Text(s.BindProviderAPI),
				"BindGatewayAPI":           vconf.Text(s.BindGatewayAPI),
				"BindAdminAPI":             vconf.Text(s.BindAdminAPI),
				"GatewayID":                vconf.Text(s.GatewayID),
				"GatewayAddress":           vconf.Text(s.GatewayAddress),
				"GatewayRegionCode":        vconf.Text(s.GatewayRegionCode),
				"GatewayRootSigningKey":    vconf.Text(s.GatewayRootSigningKey),
				"GatewaySigningKey":        vconf.Text(s.GatewaySigningKey),
				"NetworkInfoGateway":       vconf.Text(s.NetworkInfoGateway),
				"NetworkInfoClient":        vconf.Text(s.NetworkInfoClient),
				"NetworkInfoProvider":      vconf.Text(s.NetworkInfoProvider),
				"NetworkInfoAdmin":         vconf.Text(s.NetworkInfoAdmin),
				"LogLevel":                 vconf.Text(s.LogLevel),
				"LogTarget":                vconf.Text(s.LogTarget),
				"LogDir":                   vconf.Text(s.LogDir),
				"LogFile":                  vconf.Text(s.LogFile),
				"LogMaxBackups":            vconf.Text(s.LogMaxBackups),
				"LogMaxAge":                vconf.Text(s.LogMaxAge),
				"LogMaxSize":               vconf.Text(s.LogMaxSize),
				"LogCompress":              vconf.Text(s.LogCompress),
				"RegisterAPIURL":           vconf.Text(s.RegisterAPIURL),
				"RegisterRefreshDuration":  vconf.Text(s.RegisterRefreshDuration),
				"TCPInactivityTimeout":     vconf.Text(s.TCPInactivityTimeout),
				"TCPLongInactivityTimeout": vconf.Text(s.TCPLongInactivityTimeout),
				"SearchPrice":              vconf.Text(s.SearchPrice),
				"OfferPrice":               vconf.Text(s.OfferPrice),
				"TopupAmount":              vconf.Text(s.TopupAmount),
			}
		})
	})
}
