package config

import (
	"math/big"
	"time"

	"github.com/spf13/viper"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// texts are the settings that are text
var texts = []string{
	"BIND_REST_API",
	"BIND_GATEWAY_API",
	"BIND_ADMIN_API",
	"LOG_LEVEL",
	"LOG_TARGET",
	"LOG_DIR",
	"LOG_FILE",
	"PROVIDER_ID",
	"REGISTER_API_URL",
	"PROVIDER_ADDRESS",
	"PROVIDER_REGION_CODE",
	"PROVIDER_ROOT_SIGNING_KEY",
	"PROVIDER_SIGNING_KEY",
	"IP",
}

// configuration sets every text to an own one, and the log's numbers and switch
func configuration() (*viper.Viper, map[string]string) {
	conf, set := viper.New(), map[string]string{}
	for _, k := range texts {
		set[k] = sym.String(k, sym.Bound("length of a text", 2, 4))
		conf.Set(k, set[k])
	}
	conf.Set("PROVIDER_SIG_ALG", "1")
	return conf, set
}

func VerifC36_texts() {
	conf, set := configuration()
	backups, age, size, compress := sym.Int("backups"), sym.Int("age"), sym.Int("size"), sym.Bool("compress")
	conf.Set("LOG_MAX_BACKUPS", backups)
	conf.Set("LOG_MAX_AGE", age)
	conf.Set("LOG_MAX_SIZE", size)
	conf.Set("LOG_COMPRESS", compress)
	s := Map(conf)
	sym.Assert(s.BindRestAPI == set["BIND_REST_API"], "a text is that of its name")
	sym.Assert(s.BindGatewayAPI == set["BIND_GATEWAY_API"], "a text is that of its name")
	sym.Assert(s.BindAdminAPI == set["BIND_ADMIN_API"], "a text is that of its name")
	sym.Assert(s.LogLevel == set["LOG_LEVEL"], "a text is that of its name")
	sym.Assert(s.LogTarget == set["LOG_TARGET"], "a text is that of its name")
	sym.Assert(s.LogDir == set["LOG_DIR"], "a text is that of its name")
	sym.Assert(s.LogFile == set["LOG_FILE"], "a text is that of its name")
	sym.Assert(s.ProviderID == set["PROVIDER_ID"], "a text is that of its name")
	sym.Assert(s.RegisterAPIURL == set["REGISTER_API_URL"], "a text is that of its name")
	sym.Assert(s.ProviderAddress == set["PROVIDER_ADDRESS"], "a text is that of its name")
	sym.Assert(s.ProviderRegionCode == set["PROVIDER_REGION_CODE"], "a text is that of its name")
	sym.Assert(s.ProviderRootSigningKey == set["PROVIDER_ROOT_SIGNING_KEY"], "a text is that of its name")
	sym.Assert(s.ProviderSigningKey == set["PROVIDER_SIGNING_KEY"], "a text is that of its name")
	sym.Assert(s.LogMaxBackups == backups && s.LogMaxAge == age && s.LogMaxSize == size && s.LogCompress == compress, "the log is as configured")
}

// number is a text, the number that it stands for, and whether it does
func number(label string, most int) (string, uint64, bool) {
	switch sym.Choose(label, 6) {
	case 0:
		return "1_000_000_000_000_000", 1000000000000000, true
	case 1:
		return "", 0, false
	case 2:
		return "much", 0, false
	case 3:
		return "0.001", 0, false
	case 4:
		return "25 FIL", 0, false
	}
	s := sym.String(label+" digits", 1+sym.Choose(label+" length", most))
	var v uint64
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '0' && s[i] <= '9' && (i > 0 || s[0] != '0'))
		v = 10*v + uint64(s[i]-'0')
	}
	return s, v, true
}

func VerifC36_prices() {
	conf, _ := configuration()
	names := []string{"SEARCH_PRICE", "OFFER_PRICE", "TOPUP_AMOUNT"}
	defaults := []uint64{1000000000000000, 1000000000000000, 100000000000000000}
	k := sym.Choose("price", 3)
	for i, n := range names { // the others are not set
		if i == k {
			t, v, ok := number(n, sym.Bound("digits of a price", 4, 9))
			conf.Set(n, t)
			if ok {
				defaults[i] = v
			}
		} else if sym.Choose("other is set", 2) == 1 {
			conf.Set(n, "77")
			defaults[i] = 77
		}
	}
	s := Map(conf)
	for i, p := range []*big.Int{s.SearchPrice, s.OfferPrice, s.TopupAmount} {
		sym.Assert(p != nil && p.Cmp(new(big.Int).SetUint64(defaults[i])) == 0, "a price is the number that is configured, or the default")
	}
}

// duration is a text, the time that it stands for, and whether it does
func duration(label string) (string, time.Duration, bool) {
	switch sym.Choose(label, 4) {
	case 0:
		return "", 0, false
	case 1:
		return "25", 0, false
	case 2:
		return "soon", 0, false
	}
	units := []string{"ms", "s", "m", "h", "us"}
	scale := []time.Duration{1000000, 1000000000, 60000000000, 3600000000000, 1000}
	u := sym.Choose(label+" unit", len(units))
	s := sym.String(label+" digits", 1+sym.Choose(label+" length", sym.Bound("digits of a time", 2, 4)))
	var v time.Duration
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '0' && s[i] <= '9')
		v = 10*v + time.Duration(s[i]-'0')
	}
	return s + units[u], v * scale[u], true
}

func VerifC36_times() {
	conf, _ := configuration()
	names := []string{"REGISTER_REFRESH_DURATION", "TCP_INACTIVITY_TIMEOUT", "TCP_LONG_INACTIVITY_TIMEOUT"}
	want := []time.Duration{5 * time.Second, 100 * time.Millisecond, 5 * time.Second}
	k := sym.Choose("time", 3)
	for i, n := range names {
		if i == k {
			t, v, ok := duration(n)
			conf.Set(n, t)
			if ok {
				want[i] = v
			}
		} else if sym.Choose("other is set", 2) == 1 {
			conf.Set(n, "77s")
			want[i] = 77 * time.Second
		}
	}
	s := Map(conf)
	for i, d := range []time.Duration{s.RegisterRefreshDuration, s.TCPInactivityTimeout, s.TCPLongInactivityTimeout} {
		sym.Assert(d == want[i], "a time is the one that is configured, or the default")
	}
}

func VerifC36_algorithm() {
	conf, _ := configuration()
	t := sym.String("algorithm", sym.Choose("length", 4))
	v := 0
	for i := 0; i < len(t); i++ {
		v = 10*v + int(t[i]-'0')
	}
	digits := len(t) > 0
	for i := 0; i < len(t); i++ {
		digits = digits && t[i] >= '0' && t[i] <= '9'
	}
	conf.Set("PROVIDER_SIG_ALG", t)
	var a uint8
	panicked := sym.Try(func() { a = Map(conf).ProviderSigAlg })
	sym.Assert(panicked == !(digits && v < 256), "only a number up to 255 is an algorithm")
	sym.Assert(panicked || int(a) == v, "the algorithm is the one that is configured")
}
