package api

// the class an error was made by
ufunc classOf(e error) *errs.Class
ufunc sha(s string) arr[byte]
spec shaEq(a arr[byte], b arr[byte]) bool = forall k int :: {a[k]} {b[k]} 0 <= k && k < 32 ==> a[k] == b[k]

// different texts have different hashes
axiom shaInjective(a string, b string)
  trigger sha(a), sha(b)
  requires shaEq(sha(a), sha(b))
  ensures a == b

extern crypto/sha256.Sum256(data) (r)
  ensures r == sha(str(data))
extern crypto/subtle.ConstantTimeCompare(x, y) (r)
  ensures r == 1 || r == 0
  ensures (r == 1) == (len(x) == len(y) && (forall i int :: {x[i]} {y[i]} 0 <= i && i < len(x) ==> x[i] == y[i]))
extern net/http.(*Request).BasicAuth(r) (username, password, ok)
extern net/http.(*Request).Context(r) (ctx)
  ensures ctx != nil
extern net/http.(*Request).FormValue(r, key) (v)
  ensures len(v) <= 0xffffffffff
extern net/http.(Header).Set(h, key, value)
extern net/http.(Header).Get(h, key) (v)
extern net/http.(ResponseWriter).Header(w) (h)
extern net/http.(ResponseWriter).Write(w, p) (n, err)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
extern net/http.(ResponseWriter).WriteHeader(w, code)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
extern net/http.(Handler).ServeHTTP(h, w, req)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
extern io.WriteString(w, s) (n, err)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
extern github.com/zeebo/errs/errdata.Set(class, key, value)
extern github.com/zeebo/errs/errdata.Get(err, key) (v)

pred hashOk(s *Server) = (forall k int :: {s.username_hash[k]} 0 <= k && k < 32 ==> s.username_hash[k] == sha(s.opts.Username)[k]) && (forall k int :: {s.password_hash[k]} 0 <= k && k < 32 ==> s.password_hash[k] == sha(s.opts.Password)[k])

fn New(db, static, opts) (s)
  ensures fresh(s) && hashOk(s) && s.db == db && s.static == static && s.opts.Username == opts.Username && s.opts.Password == opts.Password && s.opts.Origin == ite(opts.Origin == "", "*", opts.Origin)

fn (*Server).validAuth(s, ctx, username, password) (r)
  opts strfacts
  at exit hint username_good == 1 ==> shaEq(sha(username), sha(s.opts.Username))
  at exit hint password_good == 1 ==> shaEq(sha(password), sha(s.opts.Password))
  at exit hint shaEq(sha(username), sha(s.opts.Username)) ==> username_good == 1
  at exit hint shaEq(sha(password), sha(s.opts.Password)) ==> password_good == 1
  at exit hint shaEq(sha(username), sha(s.opts.Username)) ==> username == s.opts.Username
  at exit hint shaEq(sha(password), sha(s.opts.Password)) ==> password == s.opts.Password
  requires hashOk(s)
  ensures r == (username == s.opts.Username && password == s.opts.Password)

fn (*Server).serveNonce(s, ctx, w, req) (err)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
  traces io.WriteString as ws
  ensures err == nil && ncalls(ws) == 1 && arg(ws, 1, 0) == s.nonce

extern github.com/vivint/rothko/database.(Source).Query(db, ctx, metric, end, buf, cb) (err)
  opts callsback=cb
extern image/png.Encode(w, m) (err)
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)

fn (*Server).serveRender(s, ctx, w, req) (err)
  requires req != nil && w != nil && ctx != nil && s.db != nil
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code), tdgen, pushN, pushed, keepIdx, srcIdx, whoIdx
  traces Source.Query as q, Request.FormValue as form, json.NewEncoder as ne, Encoder.Encode as enc, png.Encode as pe, Merger.Push as push, Merger.Finish as fin, load.Load as ld, Record.Unmarshal as um, Measured.Draw as dr, Class.New as cn
  ghost n int = 0
  ghost last int64 = 0
  ghost going bool = true
  ghost given []byte
  ghost dec data.Record
  // what the database promises of the records it gives
  at before callback assume 0 <= $1 && $1 <= $2 && $2 < now && (n > 0 ==> $2 < last)
  at before callback set last := $2
  at before callback set given := $3
  at before Record.Unmarshal assert whole: $0 == given
  at after Record.Unmarshal set dec := rec
  // the first record given is the earliest, and every one goes to the merger,
  // up to and including the first that ends before the part that is shown
  at before load.Load assert first: n == 0 && $1 == dec
  at before Merger.Push assert each: $1 == dec
  at after callback assert stops: $r1 == nil && ok ==> $r0 == ($2 >= stop_before)
  at after callback set n := n + 1
  at after callback set going := $r0 && $r1 == nil
  at after Record.Unmarshal assume $r0 == nil ==> rec.StartTime == start && rec.EndTime == end
  loop 0
    invariant 0 <= n && measure_opts.Now == now && measure_opts.Duration == dur && measure_opts.Width == width && measure_opts.Height == height && measure_opts.Padding == padding
    invariant arrof(earliest) == 0 || fresh(earliest)
    invariant arrof(merger.columns) == 0 || fresh(merger.columns)
    invariant arrof(merger.records) == 0 || fresh(merger.records)
    invariant n > 0 ==> merger.pixel_size <= dur || merger.pixel_size == 1
    invariant n == 0 ==> merger.width == 0 && merge.started(merger) && merger.completed_px == 0 && measure_opts.Earliest == nil
    invariant n > 0 ==> ok && measure_opts.Earliest != nil && merge.histOk(merger) && pushN[merger] == n && pushed[merger][n - 1].EndTime == last
  // nothing is asked of the database for a bad request
  ensures ncalls(q) <= 1 && (res(form, 0, 0) == "" ==> ncalls(q) == 0 && ncalls(cn) == 1 && recvof(cn, 0) == &errBadRequest && err == res(cn, 0, 0))
  ensures ncalls(cn) <= 1 && ncalls(q) + ncalls(cn) == 1
  ensures ncalls(cn) == 1 ==> recvof(cn, 0) == &errBadRequest && err == res(cn, 0, 0)
  ensures ncalls(q) == 1 ==> recvof(q, 0) == s.db && arg(q, 1, 0) == res(form, 0, 0)
  ensures ncalls(q) == 1 && res(q, 0, 0) != nil ==> err != nil
  ensures ncalls(enc) + ncalls(pe) <= 1 && (ncalls(enc) + ncalls(pe) == 0 ==> err != nil)
  ensures ncalls(enc) + ncalls(pe) == 1 ==> ncalls(fin) == 1 && res(fin, 1, 0) == nil && ncalls(q) == 1 && res(q, 0, 0) == nil
  ensures ncalls(pe) == 1 ==> ncalls(dr) == 1 && arg(dr, 1, 0).Columns == res(fin, 0, 0)
  ensures ncalls(enc) == 1 ==> as(arg(enc, 0, 0), map[string]interface{})["columns"] == box(res(fin, 0, 0), []draw.Column) && as(arg(enc, 0, 0), map[string]interface{})["metric"] == box(res(form, 0, 0), string)

extern github.com/vivint/rothko/database.(Source).Metrics(db, ctx, cb) (err)
  opts callsback=cb
extern encoding/json.NewEncoder(w) (e)
  ensures e != nil
extern encoding/json.(*Encoder).Encode(e, v) (err)
  modifies allof(as(v, *respTracker).wrote), allof(as(v, *respTracker).code)

fn (*Server).serveQuery(s, ctx, w, req) (err)
  requires req != nil && w != nil && ctx != nil && s.db != nil
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code)
  traces Request.FormValue as form, query.New as qn, Search.Add as add, Search.Matched as ma, Encoder.Encode as enc, json.NewEncoder as ne, Source.Metrics as ms, api.getInt as gi
  loop 0
    invariant query.apart(search)
    invariant fresh(search.matched)
  ensures ncalls(form) == 2 && recvof(form, 0) == req && arg(form, 0, 0) == "query"
  ensures ncalls(enc) <= 1 && ncalls(ms) == 1 && recvof(ms, 0) == s.db
  ensures res(ms, 0, 0) != nil ==> err != nil && ncalls(enc) == 0
  ensures res(ms, 0, 0) == nil ==> ncalls(ma) == 1 && recvof(ma, 0) == res(qn, 0, 0) && ncalls(enc) == 1 && as(arg(enc, 0, 0), []string) == res(ma, 0, 0)

pred granted(s *Server, ok bool, u string, p string) = s.opts.Username == "" || ok && u == s.opts.Username && p == s.opts.Password

fn (*Server).serveHTTP(s, ctx, w, req) (err)
  requires hashOk(s) && req != nil && w != nil && req.URL != nil && ctx != nil && s.db != nil
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code), tdgen, pushN, pushed, keepIdx, srcIdx, whoIdx
  traces Request.BasicAuth as ba, Header.Set as hs, Class.New as cn, Server.serveRender as render, Server.serveQuery as query, Server.serveNonce as nonce, Handler.ServeHTTP as static
  ghost may bool = false
  at after Request.BasicAuth assert whose: recvof(ba, ncalls(ba) - 1) == req
  // nothing is served without the credentials
  ensures s.opts.Username != "" ==> ncalls(ba) == 1
  ensures ncalls(ba) <= 1 && ncalls(render) + ncalls(query) + ncalls(nonce) + ncalls(static) <= 1
  ensures !granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) ==> ncalls(render) + ncalls(query) + ncalls(nonce) + ncalls(static) == 0 && ncalls(cn) == 1 && recvof(cn, 0) == &errUnauthorized && err == res(cn, 0, 0) && ncalls(hs) == 1 && arg(hs, 0, 0) == "WWW-Authenticate" && arg(hs, 1, 0) == "Basic realm=\"rothko\""
  // nor any other method than GET
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && req.Method != "GET" ==> ncalls(render) + ncalls(query) + ncalls(nonce) + ncalls(static) == 0 && ncalls(cn) == 1 && recvof(cn, 0) == &errMethodNotAllowed && err == res(cn, 0, 0)
  // each path has its handler
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && old(req.Method == "GET" && req.URL.Path == "/api/render") ==> ncalls(render) == 1 && arg(render, 1, 0) == w && arg(render, 2, 0) == req && recvof(render, 0) == s && err == res(render, 0, 0)
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && old(req.Method == "GET" && req.URL.Path == "/api/query") ==> ncalls(query) == 1 && arg(query, 1, 0) == w && arg(query, 2, 0) == req && recvof(query, 0) == s && err == res(query, 0, 0)
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && old(req.Method == "GET" && req.URL.Path == "/api/nonce") ==> ncalls(nonce) == 1 && arg(nonce, 1, 0) == w && recvof(nonce, 0) == s && err == res(nonce, 0, 0)
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && old(req.Method == "GET" && req.URL.Path != "/api/render" && req.URL.Path != "/api/query" && req.URL.Path != "/api/nonce" && s.static != nil) ==> ncalls(static) == 1 && recvof(static, 0) == s.static && arg(static, 0, 0) == w && arg(static, 1, 0) == req && err == nil
  ensures granted(s, res(ba, 2, 0), res(ba, 0, 0), res(ba, 1, 0)) && old(req.Method == "GET" && req.URL.Path != "/api/render" && req.URL.Path != "/api/query" && req.URL.Path != "/api/nonce" && s.static == nil) ==> ncalls(static) + ncalls(render) + ncalls(query) + ncalls(nonce) == 0 && ncalls(cn) == 1 && recvof(cn, 0) == &errNotFound && err == res(cn, 0, 0)

fn (*respTracker).Write(r, p) (n, err)
  requires r.ResponseWriter != nil
  modifies allof(r.wrote), allof(r.code)
  traces ResponseWriter.Write as wr
  at before ResponseWriter.Write assert noted: r.wrote && r.code == ite(old(r.wrote), old(r.code), 200)
  ensures ncalls(wr) == 1 && recvof(wr, 0) == old(r.ResponseWriter) && arg(wr, 0, 0) == p && n == res(wr, 0, 0) && err == res(wr, 1, 0)

fn (*respTracker).WriteHeader(r, code)
  requires r.ResponseWriter != nil
  modifies allof(r.wrote), allof(r.code)
  traces ResponseWriter.WriteHeader as wh
  at before ResponseWriter.WriteHeader assert noted: r.wrote && r.code == ite(old(r.wrote), old(r.code), code)
  ensures ncalls(wh) == 1 && recvof(wh, 0) == old(r.ResponseWriter) && arg(wh, 0, 0) == code

fn (*Server).ServeHTTP(s, w, req)
  requires hashOk(s) && req != nil && w != nil && req.URL != nil && s.db != nil
  modifies allof(as(w, *respTracker).wrote), allof(as(w, *respTracker).code), tdgen, pushN, pushed, keepIdx, srcIdx, whoIdx
  traces Server.serveHTTP as serve, ResponseWriter.WriteHeader as wh, Header.Set as hs, api.getStatusCode as code
  ghost done bool = false
  // after the handlers: whether something was written already
  at after Server.serveHTTP set done := tracker.wrote
  ensures ncalls(serve) == 1 && recvof(serve, 0) == s && arg(serve, 2, 0) == req && fresh(as(arg(serve, 1, 0), *respTracker)) && is(arg(serve, 1, 0), *respTracker) && as(arg(serve, 1, 0), *respTracker).ResponseWriter == w
  ensures ncalls(hs) == 1 && arg(hs, 0, 0) == "Access-Control-Allow-Origin" && arg(hs, 1, 0) == s.opts.Origin
  // the status of an error is that of its class, unless an answer was begun
  ensures res(serve, 0, 0) == nil || done ==> ncalls(wh) == 0
  ensures res(serve, 0, 0) != nil && !done ==> ncalls(wh) == 1 && recvof(wh, 0) == w && ncalls(code) == 1 && arg(code, 0, 0) == res(serve, 0, 0) && arg(wh, 0, 0) == res(code, 0, 0)

fn init()
  traces errdata.Set as set
  ensures ncalls(set) == 4 && (forall k int :: {arg(set, 2, k)} 0 <= k && k < 4 ==> is(arg(set, 1, k), statusCode) && is(arg(set, 2, k), int))
  ensures forall k int :: {arg(set, 0, k)} 0 <= k && k < 4 ==> (arg(set, 0, k) == &errNotFound && as(arg(set, 2, k), int) == 404) || (arg(set, 0, k) == &errMethodNotAllowed && as(arg(set, 2, k), int) == 405) || (arg(set, 0, k) == &errBadRequest && as(arg(set, 2, k), int) == 400) || (arg(set, 0, k) == &errUnauthorized && as(arg(set, 2, k), int) == 401)
  // each class once
  ensures arg(set, 0, 0) != arg(set, 0, 1) && arg(set, 0, 0) != arg(set, 0, 2) && arg(set, 0, 0) != arg(set, 0, 3) && arg(set, 0, 1) != arg(set, 0, 2) && arg(set, 0, 1) != arg(set, 0, 3) && arg(set, 0, 2) != arg(set, 0, 3)

fn getStatusCode(err) (code)
  traces errdata.Get as get
  ensures ncalls(get) == 1 && arg(get, 0, 0) == err && is(arg(get, 1, 0), statusCode)
  ensures code == ite(is(res(get, 0, 0), int), as(res(get, 0, 0), int), 500)
