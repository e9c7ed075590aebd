package data

monitor (agg).mu
  guards rec, dist
  invariant this.rec.Observations > 0 ==> this.dist != nil

fn newAgg(params, now) (a)
  ensures fresh(a) && a.params == params && a.dist == nil && a.rec.Observations == 0 && a.rec.Merged == 1
  ensures a.rec.MinId == nil && a.rec.MaxId == nil && a.rec.Min == 0.0 && a.rec.Max == 0.0 && a.rec.Kind == "" && a.rec.Distribution == nil && a.rec.EndTime == 0

fn (*agg).Observe(a, val, id)
  requires a.params != nil
  opts strfacts
  traces Params.New as mk, Dist.Observe as obs
  modifies a.rec.*, a.dist
  ensures locked(a.dist) != nil ==> ncalls(mk) == 0 && a.dist == locked(a.dist)
  ensures locked(a.dist) == nil ==> ncalls(mk) == 1 && recvof(mk, 0) == a.params
  ensures locked(a.dist) == nil && res(mk, 1, 0) == nil ==> a.dist == res(mk, 0, 0)
  ensures locked(a.dist) == nil && res(mk, 1, 0) != nil ==> ncalls(obs) == 0 && a.dist == nil && a.rec == locked(a.rec)
  ensures locked(a.dist) != nil || res(mk, 1, 0) == nil ==> ncalls(obs) == 1 && recvof(obs, 0) == a.dist && arg(obs, 0, 0) == val
  ensures locked(a.dist) != nil || res(mk, 1, 0) == nil ==> a.rec.Observations == i64(locked(a.rec.Observations) + 1)
  ensures (locked(a.dist) != nil || res(mk, 1, 0) == nil) && (locked(a.rec.Observations) == 0 || val < locked(a.rec.Min)) ==> a.rec.Min == val && str(a.rec.MinId) == old(str(id)) && (len(id) > 0 ==> fresh(a.rec.MinId))
  ensures (locked(a.dist) != nil || res(mk, 1, 0) == nil) && locked(a.rec.Observations) != 0 && !(val < locked(a.rec.Min)) ==> a.rec.Min == locked(a.rec.Min) && a.rec.MinId == locked(a.rec.MinId)
  ensures (locked(a.dist) != nil || res(mk, 1, 0) == nil) && (locked(a.rec.Observations) == 0 || val > locked(a.rec.Max)) ==> a.rec.Max == val && str(a.rec.MaxId) == old(str(id)) && (len(id) > 0 ==> fresh(a.rec.MaxId))
  ensures (locked(a.dist) != nil || res(mk, 1, 0) == nil) && locked(a.rec.Observations) != 0 && !(val > locked(a.rec.Max)) ==> a.rec.Max == locked(a.rec.Max) && a.rec.MaxId == locked(a.rec.MaxId)
  ensures a.rec.StartTime == locked(a.rec.StartTime) && a.rec.EndTime == locked(a.rec.EndTime) && a.rec.Merged == locked(a.rec.Merged) && a.rec.Kind == locked(a.rec.Kind) && a.rec.Distribution == locked(a.rec.Distribution)

fn (*agg).Finish(a, buf, now) (out, rec)
  requires a.params != nil
  traces Dist.Kind as kind, Dist.Marshal as marshal, Params.Kind as pkind
  ensures rec.StartTime == locked(a.rec.StartTime) && rec.Observations == locked(a.rec.Observations) && rec.Min == locked(a.rec.Min) && rec.Max == locked(a.rec.Max) && rec.MinId == locked(a.rec.MinId) && rec.MaxId == locked(a.rec.MaxId) && rec.Merged == locked(a.rec.Merged)
  ensures locked(a.dist) != nil ==> ncalls(kind) == 1 && recvof(kind, 0) == locked(a.dist) && rec.Kind == res(kind, 0, 0) && ncalls(marshal) == 1 && recvof(marshal, 0) == locked(a.dist) && len(arg(marshal, 0, 0)) == 0 && rec.Distribution == res(marshal, 0, 0) && out == res(marshal, 0, 0)
  ensures locked(a.dist) == nil ==> rec.Distribution == locked(a.rec.Distribution)

// the contents of a sync.Map
ghostvar smDom kmap[*sync.Map, kmap[any, bool]]
ghostvar smVal kmap[*sync.Map, kmap[any, any]]

extern sync.(*Map).Load(m, key) (v, ok)
  ensures ok == smDom[m][key] && (ok ==> v == smVal[m][key]) && (!ok ==> v == nil)
extern sync.(*Map).LoadOrStore(m, key, value) (actual, loaded)
  modifies smDom, smVal
  ensures loaded == old(smDom[m][key])
  ensures loaded ==> actual == old(smVal[m][key]) && smDom == old(smDom) && smVal == old(smVal)
  ensures !loaded ==> actual == value && smDom == stored(old(smDom), m, stored(old(smDom[m]), key, true)) && smVal == stored(old(smVal), m, stored(old(smVal[m]), key, value))
extern sync.(*Map).Store(m, key, value)
  modifies smDom, smVal
  ensures smDom == stored(old(smDom), m, stored(old(smDom[m]), key, true)) && smVal == stored(old(smVal), m, stored(old(smVal[m]), key, value))
extern sync.(*Map).Delete(m, key)
  modifies smDom
  ensures smDom == stored(old(smDom), m, stored(old(smDom[m]), key, false))
extern sync.(*Map).Range(m, f)
  opts ranges=smDom,smVal

// a page: aggregators by metric name, each metric with its own
spec pageOf(s *Writer) *page = ptr(s.page, *page)
pred wfAgg(x any) = is(x, *agg) && as(x, *agg) != nil && as(x, *agg).params != nil && allocated(as(x, *agg))
pred wfPage(p *page) = p != nil && (forall k any :: {smDom[&p.m][k]} smDom[&p.m][k] ==> is(k, string) && wfAgg(smVal[&p.m][k]))
   && (forall k any, l any :: {smVal[&p.m][k], smVal[&p.m][l]} smDom[&p.m][k] && smDom[&p.m][l] && smVal[&p.m][k] == smVal[&p.m][l] ==> k == l)

pred okWriter(s *Writer) = s.params != nil && (s.page != nil ==> wfPage(pageOf(s)))

fn newPage(now) (p)
  at exit assume forall k any :: {smDom[&r0.m][k]} !smDom[&r0.m][k]
  ensures fresh(p) && p.now == now && (forall k any :: {smDom[&p.m][k]} !smDom[&p.m][k])

fn NewWriter(params) (s)
  ensures fresh(s) && s.params == params && s.page == nil
  ensures params != nil ==> okWriter(s)

fn (*Writer).Add(s, ctx, metric, value, id)
  requires okWriter(s)
  modifies smDom, smVal, s.page, allof(ptr(s, *agg).rec), allof(ptr(s, *agg).dist)
  traces agg.Observe as obs
  at before Map.Load assert new: old(s.page) == nil ==> (forall k any :: {smDom[&pageOf(s).m][k]} !smDom[&pageOf(s).m][k])
  at after Map.Load assert miss: old(s.page) == nil ==> !$r1
  at after Map.LoadOrStore assert only: old(s.page) == nil ==> (forall k any :: {smDom[&pageOf(s).m][k]} smDom[&pageOf(s).m][k] ==> k == box(metric, string))
  loop 0
    invariant s.page == old(s.page) && smDom == old(smDom) && smVal == old(smVal)
  ensures okWriter(s)
  ensures isnan(value) || isinf(value) ==> ncalls(obs) == 0 && s.page == old(s.page) && smDom == old(smDom) && smVal == old(smVal)
  ensures !(isnan(value) || isinf(value)) ==> ncalls(obs) == 1 && arg(obs, 0, 0) == value && arg(obs, 1, 0) == id
  ensures !(isnan(value) || isinf(value)) ==> wfPage(pageOf(s)) && smDom[&pageOf(s).m][box(metric, string)] && smVal[&pageOf(s).m][box(metric, string)] == box(recvof(obs, 0), *agg)
  // a page stays until it is captured, and so does an aggregator
  ensures old(s.page) != nil ==> s.page == old(s.page)
  ensures old(s.page) == nil && !(isnan(value) || isinf(value)) ==> (forall k any :: {smDom[&pageOf(s).m][k]} smDom[&pageOf(s).m][k] ==> k == box(metric, string))
  ensures old(s.page) != nil ==> (forall k any :: {smDom[&pageOf(s).m][k]} k != box(metric, string) ==> smDom[&pageOf(s).m][k] == old(smDom[&pageOf(s).m][k]))
  ensures old(s.page) != nil ==> (forall k any :: {smDom[&pageOf(s).m][k]} old(smDom[&pageOf(s).m][k]) ==> smDom[&pageOf(s).m][k] && smVal[&pageOf(s).m][k] == old(smVal[&pageOf(s).m][k]))

fn (*Writer).Capture(s, ctx, fn)
  requires okWriter(s)
  ensures okWriter(s)
  modifies s.page
  traces agg.Finish as fin
  ghost finOf kmap[any, int]
  ghost callOf kmap[any, int]
  ghost keyOf kmap[int, any]
  at after agg.Finish set finOf := stored(finOf, $key, ncalls(fin) - 1)
  at after fn set callOf := stored(callOf, $key, ncalls(fn) - 1)
  at after fn set keyOf := stored(keyOf, ncalls(fn) - 1, $key)
  loop 0
    invariant forall i int :: {res(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> res(fn, 0, i)
    invariant forall k any :: {visited(k)} {finOf[k]} visited(k) ==> 0 <= finOf[k] && finOf[k] < ncalls(fin) && recvof(fin, finOf[k]) == as(smVal[&old(pageOf(s)).m][k], *agg)
    invariant forall k any :: {visited(k)} {callOf[k]} visited(k) && res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= callOf[k] && callOf[k] < ncalls(fn) && keyOf[callOf[k]] == k
    invariant forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> visited(keyOf[i]) && callOf[keyOf[i]] == i && res(fin, 1, finOf[keyOf[i]]).Observations != 0
    invariant forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> arg(fn, 0, i) == ctx
    invariant forall i int :: {keyOf[i]} {arg(fn, 1, i)} {arg(fn, 2, i)} 0 <= i && i < ncalls(fn) ==> arg(fn, 1, i) == as(keyOf[i], string) && arg(fn, 2, i) == res(fin, 1, finOf[keyOf[i]])
  ensures old(s.page) == nil ==> s.page == nil && ncalls(fn) == 0
  // the page is swapped for an empty one
  ensures old(s.page) != nil ==> fresh(pageOf(s)) && (forall k any :: {smDom[&pageOf(s).m][k]} !smDom[&pageOf(s).m][k])
  // the function is called until it returns false, then no more
  ensures forall i int :: {res(fn, 0, i)} 0 <= i && i < ncalls(fn) - 1 ==> res(fn, 0, i)
  // at most once for a metric, with its own finished record, which has observations
  ensures forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> smDom[&old(pageOf(s)).m][keyOf[i]] && callOf[keyOf[i]] == i && arg(fn, 0, i) == ctx && arg(fn, 1, i) == as(keyOf[i], string)
  ensures forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> 0 <= finOf[keyOf[i]] && finOf[keyOf[i]] < ncalls(fin) && recvof(fin, finOf[keyOf[i]]) == as(smVal[&old(pageOf(s)).m][keyOf[i]], *agg) && arg(fn, 2, i) == res(fin, 1, finOf[keyOf[i]]) && res(fin, 1, finOf[keyOf[i]]).Observations != 0
  // and unless it stopped, for every metric with observations
  ensures old(s.page) != nil && (ncalls(fn) == 0 || res(fn, 0, ncalls(fn) - 1)) ==> (forall k any :: {smDom[&old(pageOf(s)).m][k]} smDom[&old(pageOf(s)).m][k] ==> 0 <= finOf[k] && finOf[k] < ncalls(fin) && recvof(fin, finOf[k]) == as(smVal[&old(pageOf(s)).m][k], *agg) && (res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= callOf[k] && callOf[k] < ncalls(fn) && keyOf[callOf[k]] == k))

fn (*Writer).Iterate(s, ctx, fn)
  requires okWriter(s)
  ensures okWriter(s)

  traces agg.Finish as fin
  ghost finOf kmap[any, int]
  ghost callOf kmap[any, int]
  ghost keyOf kmap[int, any]
  at after agg.Finish set finOf := stored(finOf, $key, ncalls(fin) - 1)
  at after fn set callOf := stored(callOf, $key, ncalls(fn) - 1)
  at after fn set keyOf := stored(keyOf, ncalls(fn) - 1, $key)
  loop 0
    invariant forall i int :: {res(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> res(fn, 0, i)
    invariant forall k any :: {visited(k)} {finOf[k]} visited(k) ==> 0 <= finOf[k] && finOf[k] < ncalls(fin) && recvof(fin, finOf[k]) == as(smVal[&old(pageOf(s)).m][k], *agg)
    invariant forall k any :: {visited(k)} {callOf[k]} visited(k) && res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= callOf[k] && callOf[k] < ncalls(fn) && keyOf[callOf[k]] == k
    invariant forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> visited(keyOf[i]) && callOf[keyOf[i]] == i && res(fin, 1, finOf[keyOf[i]]).Observations != 0
    invariant forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> arg(fn, 0, i) == ctx
    invariant forall i int :: {keyOf[i]} {arg(fn, 1, i)} {arg(fn, 2, i)} 0 <= i && i < ncalls(fn) ==> arg(fn, 1, i) == as(keyOf[i], string) && arg(fn, 2, i) == res(fin, 1, finOf[keyOf[i]])
  ensures old(s.page) == nil ==> s.page == nil && ncalls(fn) == 0
  ensures s.page == old(s.page)
  // the function is called until it returns false, then no more
  ensures forall i int :: {res(fn, 0, i)} 0 <= i && i < ncalls(fn) - 1 ==> res(fn, 0, i)
  // at most once for a metric, with its own finished record, which has observations
  ensures forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> smDom[&old(pageOf(s)).m][keyOf[i]] && callOf[keyOf[i]] == i && arg(fn, 0, i) == ctx && arg(fn, 1, i) == as(keyOf[i], string)
  ensures forall i int :: {keyOf[i]} 0 <= i && i < ncalls(fn) ==> 0 <= finOf[keyOf[i]] && finOf[keyOf[i]] < ncalls(fin) && recvof(fin, finOf[keyOf[i]]) == as(smVal[&old(pageOf(s)).m][keyOf[i]], *agg) && arg(fn, 2, i) == res(fin, 1, finOf[keyOf[i]]) && res(fin, 1, finOf[keyOf[i]]).Observations != 0
  // and unless it stopped, for every metric with observations
  ensures old(s.page) != nil && (ncalls(fn) == 0 || res(fn, 0, ncalls(fn) - 1)) ==> (forall k any :: {smDom[&old(pageOf(s)).m][k]} smDom[&old(pageOf(s)).m][k] ==> 0 <= finOf[k] && finOf[k] < ncalls(fin) && recvof(fin, finOf[k]) == as(smVal[&old(pageOf(s)).m][k], *agg) && (res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= callOf[k] && callOf[k] < ncalls(fn) && keyOf[callOf[k]] == k))
