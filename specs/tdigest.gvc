package dist/tdigest

// the quantile function of a digest is an uninterpreted function of the
// digest's contents, which only Add changes
ufunc quantile(td *tdigest.TDigest, gen mathint, x float64) float64
ghostvar tdgen kmap[*tdigest.TDigest, mathint]

extern github.com/zeebo/tdigest.New(c) (t)
  ensures t != nil
extern github.com/zeebo/tdigest.FromBytes(b) (t, err)
  ensures err == nil ==> t != nil
extern github.com/zeebo/tdigest.(*TDigest).Quantile(t, x) (r)
  requires t != nil
  ensures r == quantile(t, tdgen[t], x)
extern github.com/zeebo/tdigest.(*TDigest).Add(t, x)
  requires t != nil
  modifies tdgen
  ensures forall u *tdigest.TDigest :: {tdgen[u]} u != t ==> tdgen[u] == old(tdgen[u])
extern github.com/zeebo/tdigest.(TDigest).Count(t) (r)
extern github.com/zeebo/tdigest.(TDigest).Marshal(t, buf) (r)
  modifies elems(buf)

// eff is what the wrapper answers for the quantile at x: a memoized answer
// or the digest's
spec eff(w *Wrapper, x float64) float64 = ite(has(w.cache, x), w.cache[x], quantile(w.td, tdgen[w.td], x))

spec fin(x float64) bool = !isnan(x) && real(x) <= real(1.0) && real(x) >= real(0.0)

// the bisection, for any quantile function c with digest contents g
spec effc(has kmap[float64, bool], c kmap[float64, float64], td *tdigest.TDigest, g mathint, y float64) float64 = ite(has[y], c[y], quantile(td, g, y))
recspec bis(n mathint, lo float64, hi float64, x float64, d kmap[float64, bool], c kmap[float64, float64], td *tdigest.TDigest, g mathint) float64 = ite(n <= 0, (lo + hi) / 2.0, ite(x >= effc(d, c, td, g, (lo + hi) / 2.0), bis(n - 1, (lo + hi) / 2.0, hi, x, d, c, td, g), bis(n - 1, lo, (lo + hi) / 2.0, x, d, c, td, g)))

fn (Params).Kind(p) (s)
  ensures s == "tdigest"
fn (Wrapper).Kind(w) (s)
  ensures s == "tdigest"

fn (Params).New(p) (d, e)
  traces tdigest.New as mk
  ensures (e != nil) == feq(p.Compression, 0.0)
  ensures e == nil ==> ncalls(mk) == 1 && arg(mk, 0, 0) == p.Compression && is(d, *Wrapper) && as(d, *Wrapper) != nil && fresh(as(d, *Wrapper)) && as(d, *Wrapper).td == res(mk, 0, 0) && as(d, *Wrapper).td != nil && as(d, *Wrapper).cache == nil

fn (Params).Unmarshal(p, data) (d, e)
  traces tdigest.FromBytes as mk
  ensures ncalls(mk) == 1 && arg(mk, 0, 0) == data && (e != nil) == (res(mk, 1, 0) != nil)
  ensures e == nil ==> is(d, *Wrapper) && as(d, *Wrapper) != nil && fresh(as(d, *Wrapper)) && as(d, *Wrapper).td == res(mk, 0, 0) && as(d, *Wrapper).td != nil && as(d, *Wrapper).cache == nil

fn Wrap(td) (w)
  ensures fresh(w) && w.td == td && w.cache == nil

fn (Wrapper).Underlying(w) (t)
  ensures t == w.td

fn (*Wrapper).Observe(w, val)
  requires w.td != nil
  traces TDigest.Add as add
  modifies tdgen, w.cache
  ensures ncalls(add) == 1 && w.cache == nil && recvof(add, 0) == w.td && arg(add, 0, 0) == val
  ensures forall u *tdigest.TDigest :: {tdgen[u]} u != w.td ==> tdgen[u] == old(tdgen[u])

fn (Wrapper).Marshal(w, buf) (r)
  requires w.td != nil
  modifies elems(buf)
  traces TDigest.Marshal as m
  ensures ncalls(m) == 1 && recvof(m, 0) == *w.td && arg(m, 0, 0) == buf && r == res(m, 0, 0)

fn (Wrapper).Query(w, x) (r)
  requires w.td != nil
  ensures r == quantile(w.td, tdgen[w.td], x)

fn (Wrapper).Len(w) (n)
  requires w.td != nil
  traces TDigest.Count as m
  ensures ncalls(m) == 1 && recvof(m, 0) == *w.td && n == i64(res(m, 0, 0))

fn (*Wrapper).quan(w, x) (r)
  requires w.td != nil && !isnan(x) && (real(x) > real(0.0) || x == 0.0)
  modifies w.cache, map(w.cache)
  ensures r == old(eff(w, x))
  ensures forall y float64 :: {dom(w.cache)[y]} {vals(w.cache)[y]} eff(w, y) == old(eff(w, y))
  ensures w.cache != nil && w.td == old(w.td)
  ensures old(w.cache) != nil ==> w.cache == old(w.cache)
  ensures old(w.cache) == nil ==> fresh(w.cache)


spec ordered(lo float64, hi float64) bool = !isnan(lo) && !isnan(hi) && real(0.0) <= real(lo) && real(lo) <= real(hi) && real(hi) <= real(1.0) && real(hi) >= real(0.0078125)
spec half(i mathint) real = ite(i <= 0, real(1.0), ite(i == 1, real(0.5), ite(i == 2, real(0.25), ite(i == 3, real(0.125), ite(i == 4, real(0.0625), ite(i == 5, real(0.03125), real(0.015625)))))))
spec dom0(w *Wrapper) kmap[float64, bool] = ite(w.cache == nil, noKeys(), dom(w.cache))
ufunc noKeys() kmap[float64, bool]
axiom noKeysEmpty(y float64)
  ensures !noKeys()[y]
  trigger noKeys()[y]

fn (*Wrapper).CDF(w, x) (r)
  requires w.td != nil
  modifies w.cache, map(w.cache)
  ensures range: !isnan(r) && r >= 0.0 && r <= 1.0
  ensures low: x <= old(eff(w, 0.0)) ==> r == 0.0
  ensures high: !(x <= old(eff(w, 0.0))) && x >= old(eff(w, 1.0)) ==> r == 1.0
  ensures value: !(x <= old(eff(w, 0.0))) && !(x >= old(eff(w, 1.0))) ==> r == old(bis(6, 0.0, 1.0, x, dom0(w), vals(w.cache), w.td, tdgen[w.td]))
  ensures same: forall y float64 :: {dom(w.cache)[y]} {vals(w.cache)[y]} eff(w, y) == old(eff(w, y))
  loop 0
    invariant 0 <= i && i <= 6 && ordered(minq, maxq)
    invariant real(maxq) >= half(i)
    invariant w.cache != nil && w.cache == pre(w.cache)
    invariant w.td == pre(w.td)
    invariant forall y float64 :: {dom(w.cache)[y]} {vals(w.cache)[y]} eff(w, y) == old(eff(w, y))
    invariant old(bis(6, 0.0, 1.0, x, dom0(w), vals(w.cache), w.td, tdgen[w.td])) == bis(6 - i, minq, maxq, x, old(dom0(w)), old(vals(w.cache)), old(w.td), old(tdgen[w.td]))

// a larger x gives a larger answer, whatever the quantiles are
lemma bisRange(n mathint, lo float64, hi float64, x float64, d kmap[float64, bool], c kmap[float64, float64], td *tdigest.TDigest, g mathint)
  requires 0 <= n && n <= 6 && ordered(lo, hi) && real(hi) >= half(6 - n)
  ensures le(lo, bis(n, lo, hi, x, d, c, td, g)) && le(bis(n, lo, hi, x, d, c, td, g), hi)
  induct n
spec le(a float64, b float64) bool = a <= b
lemma bisMono(n mathint, lo float64, hi float64, x float64, y float64, d kmap[float64, bool], c kmap[float64, float64], td *tdigest.TDigest, g mathint)
  requires 0 <= n && n <= 6 && ordered(lo, hi) && real(hi) >= half(6 - n) && x <= y
  ensures bis(n, lo, hi, x, d, c, td, g) <= bis(n, lo, hi, y, d, c, td, g)
  induct n
  using bisRange(n - 1, lo, (lo + hi) / 2.0, x, d, c, td, g)
  using bisRange(n - 1, (lo + hi) / 2.0, hi, y, d, c, td, g)
