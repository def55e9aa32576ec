//go:build go1.21

// Command c33 checks what a provider takes from the settings given to it.
package main

import (
	"time"

	"github.com/ConsenSys/fc-retrieval/provider/config"

	"github.com/ConsenSys/fc-retrieval/common/verif/vconf"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func main() {
	vh.Main(func(t *vh.T) {
		vconf.Check(t, []vconf.Setting{
			{"BIND_REST_API", vconf.Str, nil}, {"BIND_GATEWAY_API", vconf.Str, nil}, {"BIND_ADMIN_API", vconf.Str, nil}, {"PROVIDER_ID", vconf.Str, nil}, {"PROVIDER_SIG_ALG", vconf.Byte, nil}, {"PROVIDER_ADDRESS", vconf.Str, nil}, {"PROVIDER_ROOT_SIGNING_KEY", vconf.Str, nil}, {"PROVIDER_SIGNING_KEY", vconf.Str, nil}, {"PROVIDER_REGION_CODE", vconf.Str, nil}, {"NETWORK_CLIENT_INFO", vconf.Str, nil}, {"NETWORK_GATEWAY_INFO", vconf.Str, nil}, {"NETWORK_ADMIN_INFO", vconf.Str, nil},
			{"LOG_LEVEL", vconf.Str, nil}, {"LOG_TARGET", vconf.Str, nil}, {"LOG_DIR", vconf.Str, nil}, {"LOG_FILE", vconf.Str, nil},
			{"LOG_MAX_BACKUPS", vconf.Int, nil}, {"LOG_MAX_AGE", vconf.Int, nil}, {"LOG_MAX_SIZE", vconf.Int, nil}, {"LOG_COMPRESS", vconf.Bool, nil},
			{"REGISTER_API_URL", vconf.Str, nil}, {"REGISTER_REFRESH_DURATION", vconf.Dur, 5 * time.Second},
			{"TCP_INACTIVITY_TIMEOUT", vconf.Dur, 100 * time.Millisecond}, {"TCP_LONG_INACTIVITY_TIMEOUT", vconf.Dur, 5 * time.Second},
			{"SEARCH_PRICE", vconf.Amount, "1000000000000000"}, {"OFFER_PRICE", vconf.Amount, "1000000000000000"}, {"TOPUP_AMOUNT", vconf.Amount, "100000000000000000"},
			{"IP", vconf.Addr, "127.0.0.1"},
		}, map[string]string{
			"BindRestAPI":              "BIND_REST_API",
			"BindGatewayAPI":           "BIND_GATEWAY_API",
			"BindAdminAPI":             "BIND_ADMIN_API",
			"ProviderID":               "PROVIDER_ID",
			"ProviderSigAlg":           "PROVIDER_SIG_ALG",
			"ProviderAddress":          "PROVIDER_ADDRESS",
			"ProviderRootSigningKey":   "PROVIDER_ROOT_SIGNING_KEY",
			"ProviderSigningKey":       "PROVIDER_SIGNING_KEY",
			"ProviderRegionCode":       "PROVIDER_REGION_CODE",
			"NetworkInfoClient":        "IP:NETWORK_CLIENT_INFO",
			"NetworkInfoGateway":       "IP:NETWORK_GATEWAY_INFO",
			"NetworkInfoAdmin":         "IP:NETWORK_ADMIN_INFO",
			"LogLevel":                 "LOG_LEVEL",
			"LogTarget":                "LOG_TARGET",
			"LogDir":                   "LOG_DIR",
			"LogFile":                  "LOG_FILE",
			"LogMaxBackups":            "LOG_MAX_BACKUPS",
			"LogMaxAge":                "LOG_MAX_AGE",
			"LogMaxSize":               "LOG_MAX_SIZE",
			"LogCompress":              "LOG_COMPRESS",
			"RegisterAPIURL":           "REGISTER_API_URL",
			"RegisterRefreshDuration":  "REGISTER_REFRESH_DURATION",
			"TCPInactivityTimeout":     "TCP_INACTIVITY_TIMEOUT",
			"TCPLongInactivityTimeout": "TCP_LONG_INACTIVITY_TIMEOUT",
			"SearchPrice":              "SEARCH_PRICE",
			"OfferPrice":               "OFFER_PRICE",
			"TopupAmount":              "TOPUP_AMOUNT",
		}, func() map[string]string {
			s := config.Map(config.NewConfig())
			return map[string]string{
				"BindRestAPI":              vconf.Text(s.BindRestAPI),
				"BindGatewayAPI":           vconf.Text(s.BindGatewayAPI),
				"BindAdminAPI":             vconf.Text(s.BindAdminAPI),
				"ProviderID":               vconf.Text(s.ProviderID),
				"ProviderSigAlg":           vconf.Text(s.ProviderSigAlg),
				"ProviderAddress":          vconf.Text(s.ProviderAddress),
				"ProviderRootSigningKey":   vconf.Text(s.ProviderRootSigningKey),
				"ProviderSigningKey":       vconf.Text(s.ProviderSigningKey),
				"ProviderRegionCode":       vconf.Text(s.ProviderRegionCode),
				"NetworkInfoClient":        vconf.Text(s.NetworkInfoClient),
				"NetworkInfoGateway":       vconf.Text(s.NetworkInfoGateway),
				"NetworkInfoAdmin":         vconf.Text(s.NetworkInfoAdmin),
				"LogLevel":                 vconf.Text(s.LogLevel),
				"LogTarget":                vconf.Text(s.LogTarget),
				"LogDir":                   vconf.Text(s.LogDir),
				"LogFile":                  vconf.Text(s.LogFile),
				"LogMaxBackups":            vconf.Text(s.LogMaxBackups),
				"LogMaxAge":                vconf.Text(s.LogMaxAge),
				"LogMaxSize":               vconf.Text(s.LogMaxSize),
				"LogCompress":              vconf.Text(s.LogCompress),
				"RegisterAPIURL":           vconf.Text(s.RegisterAPIURL),
				"RegisterRefreshDuration":  vconf.Text(s.RegisterRefreshDuration),
				"TCPInactivityTimeout":     vconf.Text(s.TCPInactivityTimeout),
				"TCPLongInactivityTimeout": vconf.Text(s.TCPLongInactivityTimeout),
				"SearchPrice":              vconf.Text(s.SearchPrice),
				"OfferPrice":               vconf.Text(s.OfferPrice),
				"TopupAmount":              vconf.Text(s.TopupAmount),
			}
		})
	})
}
