package config

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
)

func vStr(h *vh) string {
	return []string{"", "a", "secret", "redacted", ":8080", "*", "key.pem", "x y", "é", "dXNlcg=="}[h.r.Intn(10)]
}

func vSorted(es []Entity) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%s %v", e.Kind, e.Config))
	}
	sort.Strings(out)
	return out
}

func TestVerifLoad(t *testing.T) {
	h := vhNew(t, 70)
	defer h.done()
	kinds := []string{"files", "graphite", "tdigest", "other", "x"}
	for h.more(500) {
		var b strings.Builder
		want := &Config{}
		// main
		if h.r.Intn(4) > 0 {
			b.WriteString("[main]\n")
			if h.r.Intn(4) > 0 {
				want.Main.Duration = []time.Duration{time.Second, 10 * time.Minute, 90 * time.Minute, 1500 * time.Millisecond, 0}[h.r.Intn(5)]
				fmt.Fprintf(&b, "duration = %q\n", want.Main.Duration.String())
			}
			if h.r.Intn(2) == 0 {
				want.Main.Plugins = []string{}
				for i := h.r.Intn(3); i > 0; i-- {
					want.Main.Plugins = append(want.Main.Plugins, vStr(h)+fmt.Sprint(i))
				}
				fmt.Fprintf(&b, "plugins = [")
				for i, p := range want.Main.Plugins {
					if i > 0 {
						b.WriteString(", ")
					}
					fmt.Fprintf(&b, "%q", p)
				}
				b.WriteString("]\n")
			}
		}
		perm := h.r.Perm(len(kinds))
		nl := h.r.Intn(4)
		for i := 0; i < nl; i++ {
			k := kinds[perm[i]]
			for j := h.r.Intn(4); j > 0; j-- {
				a := vStr(h) + fmt.Sprint(j)
				fmt.Fprintf(&b, "[[listeners.%s]]\naddress = %q\n", k, a)
				want.Listeners = append(want.Listeners, Entity{Kind: k, Config: map[string]interface{}{"address": a}})
			}
		}
		ndb, ndist := 1, 1
		if h.r.Intn(5) == 0 {
			ndb = h.r.Intn(4)
		}
		if h.r.Intn(5) == 0 {
			ndist = h.r.Intn(4)
		}
		perm = h.r.Perm(len(kinds))
		for i := 0; i < ndb; i++ {
			fmt.Fprintf(&b, "[database.%s]\nsize = %d\n", kinds[perm[i]], i+5)
			want.Database = Entity{Kind: kinds[perm[i]], Config: map[string]interface{}{"size": int64(i + 5)}}
		}
		perm = h.r.Perm(len(kinds))
		for i := 0; i < ndist; i++ {
			fmt.Fprintf(&b, "[dist.%s]\ncompression = %d.5\n", kinds[perm[i]], i)
			want.Dist = Entity{Kind: kinds[perm[i]], Config: map[string]interface{}{"compression": float64(i) + .5}}
		}
		if h.r.Intn(4) > 0 {
			b.WriteString("[api]\n")
			if h.r.Intn(3) > 0 {
				want.API.Address = vStr(h) + "1"
				fmt.Fprintf(&b, "address = %q\n", want.API.Address)
			}
			if h.r.Intn(3) > 0 {
				want.API.Origin = vStr(h) + "2"
				fmt.Fprintf(&b, "origin = %q\n", want.API.Origin)
			}
			if h.r.Intn(3) > 0 {
				b.WriteString("[api.tls]\n")
				if h.r.Intn(3) > 0 {
					want.API.TLS.Key = vStr(h) + "3"
					fmt.Fprintf(&b, "key = %q\n", want.API.TLS.Key)
				}
				if h.r.Intn(3) > 0 {
					want.API.TLS.Cert = vStr(h) + "4"
					fmt.Fprintf(&b, "cert = %q\n", want.API.TLS.Cert)
				}
			}
			if h.r.Intn(3) > 0 {
				b.WriteString("[api.security]\n")
				if h.r.Intn(3) > 0 {
					want.API.Security.Username = vStr(h) + "5"
					fmt.Fprintf(&b, "username = %q\n", want.API.Security.Username)
				}
				if h.r.Intn(3) > 0 {
					want.API.Security.Password = vStr(h) + "6"
					fmt.Fprintf(&b, "password = %q\n", want.API.Security.Password)
				}
			}
		}
		bad := ndb != 1 || ndist != 1
		src := b.String()
		if h.r.Intn(30) == 0 {
			src += "\n[[["
			bad = true
		}
		desc := func() string { return src }
		var got *Config
		var err error
		h.within(10*time.Second, "hang", desc, func() { got, err = Load([]byte(src)) })
		if h.bad > 0 {
			return
		}
		if bad {
			if err == nil {
				h.fail("accepted", "a configuration with %d databases and %d dists is accepted: %s", ndb, ndist, src)
			} else if !ParseError.Has(err) {
				h.fail("class", "error %v is no parse error for %s", err, src)
			}
			h.did("%s", src)
			continue
		}
		if err != nil {
			h.fail("refused", "error %v for %s", err, src)
			return
		}
		for _, c := range []struct {
			what      string
			got, want interface{}
		}{
			{"duration", got.Main.Duration, want.Main.Duration},
			{"plugins", got.Main.Plugins, want.Main.Plugins},
			{"database", got.Database, want.Database},
			{"dist", got.Dist, want.Dist},
			{"api", got.API, want.API},
			{"listeners", vSorted(got.Listeners), vSorted(want.Listeners)},
		} {
			if !reflect.DeepEqual(c.got, c.want) && fmt.Sprint(c.got) != fmt.Sprint(c.want) {
				h.fail(c.what, "%s is %v, want %v, for %s", c.what, c.got, c.want, src)
			}
		}
		// entries of one kind stay in order
		for _, k := range kinds {
			var a, b []string
			for _, e := range got.Listeners {
				if e.Kind == k {
					a = append(a, fmt.Sprint(e.Config))
				}
			}
			for _, e := range want.Listeners {
				if e.Kind == k {
					b = append(b, fmt.Sprint(e.Config))
				}
			}
			if fmt.Sprint(a) != fmt.Sprint(b) {
				h.fail("order", "listeners of kind %s are %v, want %v, for %s", k, a, b, src)
			}
		}
		h.did("%s", src)
	}
}

func TestVerifRedact(t *testing.T) {
	h := vhNew(t, 30)
	defer h.done()
	for h.more(500) {
		a := APIConfig{Address: vStr(h), Origin: vStr(h), TLS: APITLSConfig{Key: vStr(h), Cert: vStr(h)}, Security: APISecurityConfig{Username: vStr(h), Password: vStr(h)}}
		before := a
		r := a.Redact()
		want := APIConfig{Address: a.Address, Origin: a.Origin, TLS: APITLSConfig{"redacted", "redacted"}, Security: APISecurityConfig{"redacted", "redacted"}}
		if r != want {
			h.fail("redact", "Redact of %+v gives %+v", before, r)
		}
		if a != before {
			h.fail("changed", "Redact changes %+v to %+v", before, a)
		}
		h.did("%+v", a)
	}
}
