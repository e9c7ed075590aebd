package api_test

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/database"
)

// sDB counts what is asked of it.
type sDB struct {
	names []string
	err   error
	calls int
}

func (d *sDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	d.calls++
	return d.err
}
func (d *sDB) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	d.calls++
	return 0, 0, nil, d.err
}
func (d *sDB) Metrics(ctx context.Context, cb func(name string) (bool, error)) error {
	d.calls++
	for _, n := range d.names {
		more, err := cb(n)
		if err != nil {
			return err
		}
		if !more {
			return nil
		}
	}
	return d.err
}
func (d *sDB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	d.calls++
	return d.err
}
func (d *sDB) Run(ctx context.Context) error { d.calls++; return d.err }

// sWriter is a response that may fail to be written.
type sWriter struct {
	h       http.Header
	heads   []int
	writes  int
	failing bool
}

func (w *sWriter) Header() http.Header { return w.h }
func (w *sWriter) WriteHeader(c int)   { w.heads = append(w.heads, c) }
func (w *sWriter) Write(p []byte) (int, error) {
	w.writes++
	if w.failing {
		return 0, errors.New("closed")
	}
	return len(p), nil
}

var sCreds = []string{"", "a", "A", "admin", "admin ", "admi", "adminx", "pass", "pass:word", "x:y", "p\u00e4ss", "a\x00", "0", strings.Repeat("long", 20)}
var sPaths = []string{"/", "/api", "/api/", "/api/render", "/api/render/", "/api/query", "/api/queryx", "/api/nonce", "/API/NONCE", "/api//nonce", "/index.html", "/api/nonce/", "/api/render.png", "//api/nonce"}
var sMethods = []string{"GET", "GET", "GET", "GET", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "get", "PATCH"}

func TestVerifServe(t *testing.T) {
	h := vhNew(t, 90)
	defer h.done()
	pick := func(s []string) string { return s[h.r.Intn(len(s))] }
	for h.more(4000) {
		opts := api.Options{}
		if h.r.Intn(3) > 0 {
			opts.Username = pick(sCreds)
			if opts.Username != "" && strings.Contains(opts.Username, ":") {
				opts.Username = "u"
			}
		}
		if h.r.Intn(3) > 0 {
			opts.Password = pick(sCreds)
		}
		if h.r.Intn(2) == 0 {
			opts.Origin = "http://example.com"
		}
		db := &sDB{names: []string{"m.one", "m.two", "n.one"}}
		if h.r.Intn(4) == 0 {
			db.err = errors.New("database broke")
		}
		statics, body := 0, "the static answer"
		var static http.Handler
		if h.r.Intn(4) > 0 {
			static = http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				statics++
				w.WriteHeader(http.StatusTeapot)
				w.Write([]byte(body))
			})
		}
		srv := api.New(db, static, opts)
		nonce := ""
		for i := 0; i < 6; i++ {
			path, method := pick(sPaths), pick(sMethods)
			vals := url.Values{}
			switch h.r.Intn(4) {
			case 0:
			case 1:
				vals.Set("metric", "m.one")
			case 2:
				vals.Set("query", pick([]string{"m", "one", "zzz", "n.o", ""}))
			default:
				vals.Set("metric", "m.one")
				vals.Set("query", "m")
			}
			req := httptest.NewRequest(method, "http://h"+path+"?"+vals.Encode(), nil)
			req.URL.Path = path
			// the Authorization header, if any
			user, pass, given := "", "", false
			auth := ""
			basic := func(u, p string) string {
				return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
			}
			u, p := opts.Username, opts.Password
			switch h.r.Intn(9) {
			case 0:
			case 1, 2:
				auth, user, pass, given = basic(u, p), u, p, true
			case 3:
				o := pick(sCreds)
				auth, user, pass, given = basic(u, o), u, o, true
			case 4:
				o := strings.ReplaceAll(pick(sCreds), ":", "")
				auth, user, pass, given = basic(o, p), o, p, true
			case 5:
				a, b := strings.ReplaceAll(pick(sCreds), ":", ""), pick(sCreds)
				auth, user, pass, given = basic(a, b), a, b, true
			case 6:
				auth = strings.Replace(basic(u, p), "Basic", "Bearer", 1)
			case 7:
				auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(u+p))
				given = strings.Contains(u+p, ":")
				if given {
					k := strings.Index(u+p, ":")
					user, pass = (u + p)[:k], (u + p)[k+1:]
				}
			default:
				auth = "Basic " + u + ":" + p + "!"
			}
			if auth != "" {
				req.Header.Set("Authorization", auth)
			}
			granted := opts.Username == "" || given && user == opts.Username && pass == opts.Password
			db.calls, statics = 0, 0
			rec := httptest.NewRecorder()
			desc := fmt.Sprintf("username %q, password %q: %s %q?%s with Authorization %q (user %q, password %q), database error %v, static handler %v", opts.Username, opts.Password, method, path, vals.Encode(), auth, user, pass, db.err, static != nil)
			h.did("%s", desc)
			if !h.noPanic("panic", func() string { return desc }, func() { srv.ServeHTTP(rec, req) }) {
				return
			}
			res := rec.Result()
			got := rec.Body.String()
			want := opts.Origin
			if want == "" {
				want = "*"
			}
			if o := res.Header.Get("Access-Control-Allow-Origin"); o != want {
				h.fail("origin", "%s: Access-Control-Allow-Origin %q, want %q", desc, o, want)
			}
			bad := func(what string, args ...interface{}) {
				h.fail(what, "%s: status %d, WWW-Authenticate %q, %d database calls, %d static calls, body %q", desc, res.StatusCode, res.Header.Get("WWW-Authenticate"), db.calls, statics, got)
			}
			isNonce := nonce != "" && strings.Contains(got, nonce)
			switch {
			case !granted:
				if res.StatusCode != 401 || res.Header.Get("WWW-Authenticate") == "" || db.calls != 0 || statics != 0 || isNonce || strings.Contains(got, body) {
					bad("refused")
				}
			case res.StatusCode == 401:
				bad("granted")
			case method != "GET":
				if res.StatusCode != 405 || db.calls != 0 || statics != 0 || isNonce {
					bad("method")
				}
			case path == "/api/render":
				switch {
				case vals.Get("metric") == "":
					if res.StatusCode != 400 || db.calls != 0 || statics != 0 {
						bad("render without metric")
					}
				case db.err != nil:
					if res.StatusCode != 500 || statics != 0 {
						bad("render error")
					}
				default:
					if res.StatusCode != 200 || db.calls != 1 || statics != 0 || res.Header.Get("Content-Type") != "image/png" {
						bad("render")
					}
				}
			case path == "/api/query":
				if db.err != nil {
					if res.StatusCode != 500 || statics != 0 {
						bad("query error")
					}
					break
				}
				var names []string
				err := json.Unmarshal(rec.Body.Bytes(), &names)
				var all []string
				for _, n := range db.names {
					q := vals.Get("query")
					if q == "" || q == "m" && n[0] == 'm' || q == "one" && strings.HasSuffix(n, "one") || q == "n.o" && n == "n.one" {
						all = append(all, n)
					}
				}
				if res.StatusCode != 200 || db.calls != 1 || statics != 0 || err != nil || len(all)+len(names) > 0 && !reflect.DeepEqual(all, names) {
					bad("query")
				}
			case path == "/api/nonce":
				if res.StatusCode != 200 || db.calls != 0 || statics != 0 || len(got) < 16 || nonce != "" && got != nonce {
					bad("nonce")
				}
				nonce = got
			case static != nil:
				if statics != 1 || db.calls != 0 || res.StatusCode != http.StatusTeapot || got != body {
					bad("static")
				}
			default:
				if res.StatusCode != 404 || db.calls != 0 {
					bad("not found")
				}
			}
			if h.bad > 0 {
				return
			}
		}
	}
}

// An error gives a status once, and only if no answer was begun.
func TestVerifStatusOnce(t *testing.T) {
	h := vhNew(t, 10)
	defer h.done()
	for h.more(200) {
		db := &sDB{names: []string{"m"}}
		if h.r.Intn(2) == 0 {
			db.err = errors.New("database broke")
		}
		path := []string{"/api/query", "/api/render?metric=m", "/api/render", "/nothing"}[h.r.Intn(4)]
		w := &sWriter{h: http.Header{}, failing: h.r.Intn(2) == 0}
		desc := fmt.Sprintf("%s, database error %v, writes fail %v", path, db.err, w.failing)
		h.did("%s", desc)
		if !h.noPanic("panic", func() string { return desc }, func() {
			api.New(db, nil, api.Options{}).ServeHTTP(w, httptest.NewRequest("GET", "http://h"+path, nil))
		}) {
			return
		}
		fails := db.err != nil && path != "/nothing" || path == "/api/render" || path == "/nothing"
		if fails && len(w.heads) != 1 {
			h.fail("status", "%s: WriteHeader calls %v, want one", desc, w.heads)
		}
		if !fails && len(w.heads) > 0 && w.heads[0] >= 400 {
			h.fail("status after write", "%s: WriteHeader calls %v although an answer was begun", desc, w.heads)
		}
	}
}
