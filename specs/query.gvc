package api/query

spec low(c mathint) mathint = ite('A' <= c && c <= 'Z', c + 32, c)

// gm: the pattern from byte i matches the name from byte j, or some prefix of it.
// The definition is unfolded where unf says so.
recspec unf(i mathint, j mathint) bool = true
ufunc gm(p string, i mathint, s string, j mathint) bool
axiom gmDef(p string, i mathint, s string, j mathint)
  trigger gm(p, i, s, j), unf(i, j)
  requires 0 <= i && 0 <= j
  ensures gm(p, i, s, j) == ite(i >= len(p), true, ite(j >= len(s), false, ite(p[i] == '*', gm(p, i + 1, s, j) || gm(p, i, s, j + 1), (p[i] == '?' || p[i] == low(s[j])) && gm(p, i + 1, s, j + 1))))

pred noStar(p string, a mathint, b mathint) = forall k int :: {p[k]} a <= k && k < b ==> p[k] != '*'

// a match of '*' found later is one found earlier
lemma starBack(p string, i mathint, s string, j mathint, n mathint)
  requires 0 <= i && i < len(p) && p[i] == '*' && 0 <= j && 0 <= n && unf(i, j) && gm(p, i, s, j + n) && unf(i, j + n)
  ensures gm(p, i, s, j)
  induct n

lemma shift(p string, i mathint, s string, j mathint, n mathint)
  requires 0 <= i && 0 <= n && i + n <= len(p) && 0 <= j && noStar(p, i, i + n) && gm(p, i, s, j) && unf(i + n - 1, j + n - 1)
  ensures gm(p, i + n, s, j + n)
  induct n

// the last '*' of the pattern before px is at np; a match of it at position nn
// or later is a match at px from the corresponding position
lemma starOn(p string, np mathint, px mathint, s string, nn mathint, n mathint)
  requires 0 <= np && np < px && px < len(p) && p[np] == '*' && noStar(p, np + 1, px) && 0 <= nn && n == len(s) - nn && gm(p, np, s, nn) && unf(np, nn)
  using shift(p, np + 1, s, nn, px - np - 1)
  using starBack(p, px, s, nn + px - np - 1, 1)
  ensures nn + px - np - 1 < len(s) && unf(px, nn + px - np - 1) && (p[px] == '*' ==> gm(p, px, s, nn + px - np - 1))
  induct n

fn glob(pattern, name) (r)
  loop 0
    invariant 0 <= px && px <= len(pattern) && 0 <= nx && nx <= len(name) && 0 <= next_px && 0 <= next_nx
    invariant 0 < next_nx ==> next_px < len(pattern) && pattern[next_px] == '*' && next_nx <= len(name) && (next_px == px && nx == next_nx || next_px < px && nx == next_nx - 1 + (px - next_px - 1))
    invariant 0 < next_nx ==> noStar(pattern, next_px + 1, px)
    invariant gm(pattern, 0, name, 0) == (gm(pattern, px, name, nx) || (0 < next_nx && gm(pattern, next_px, name, next_nx)))
    invariant unf(px, nx) && unf(next_px, next_nx)
    decreases (len(name) + 1 - next_nx) * (2 * len(pattern) + 2) + ite(0 < next_nx && px == next_px, 0, 1 + len(pattern) - px)
  at loop 0 use starOn(pattern, next_px, px, name, next_nx, len(name) - next_nx)
  ensures r == gm(pattern, 0, name, 0)

extern strings.(*Builder).Grow(b, n)
  requires n >= 0
extern strings.(*Builder).WriteByte(b, c) (err)
  modifies b.buf
  ensures len(b.buf) == old(len(b.buf)) + 1 && b.buf[old(len(b.buf))] == c && fresh(b.buf)
  ensures forall i int :: {b.buf[i]} 0 <= i && i < old(len(b.buf)) ==> b.buf[i] == old(b.buf[i])
extern strings.(*Builder).String(b) (r)
  ensures len(r) == len(b.buf) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == b.buf[i])
extern strings.IndexByte(s, c) (r)
  ensures r == 0 - 1 && (forall i int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != c) || 0 <= r && r < len(s) && s[r] == c && (forall i int :: {s[i]} 0 <= i && i < r ==> s[i] != c)
ufunc split(s string, i int) string
ufunc splits(s string) int
extern strings.Split(s, sep) (r)
  ensures fresh(r) && len(r) >= 1
  ensures sep == "." ==> len(r) == splits(s) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == split(s, i))
ufunc words(s string) int
ufunc word(s string, i int) string
extern strings.Fields(s) (r)
  ensures len(r) == words(s) && len(r) >= 0 && len(r) <= len(s) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == word(s, i))

// '*' followed by the part in lower case
recspec starred(g string, part string) bool = len(g) == len(part) + 1 && g[0] == '*' && (forall i int :: {g[i + 1]} {part[i]} 0 <= i && i < len(part) ==> g[i + 1] == low(part[i]))

fn globify(part) (r)
  loop 0
    invariant 0 <= i && i <= len(part) && len(buf.buf) == i + 1 && buf.buf[0] == '*'
    invariant forall k int :: {buf.buf[k + 1]} {part[k]} 0 <= k && k < i ==> buf.buf[k + 1] == low(part[k])
    decreases len(part) - i
  ensures starred(r, part)

pred specOf(sp spec, s string) = len(sp.globs) == splits(s) && (forall i int :: {sp.globs[i]} 0 <= i && i < len(sp.globs) ==> starred(sp.globs[i], split(s, i)))

fn newSpec(s) (r)
  loop 0
    invariant len(globs) == splits(s) && fresh(globs)
    invariant forall i int :: {globs[i]} 0 <= i && i < $i ==> starred(globs[i], split(s, i))
    invariant forall i int :: {globs[i]} $i <= i && i < len(globs) ==> globs[i] == split(s, i)
  ensures specOf(r, s) && fresh(r.globs)

// the first dotted component of a name, and what follows its dot
ufunc dot(s string) int
axiom dotDef(s string)
  trigger dot(s)
  ensures 0 <= dot(s) && dot(s) <= len(s) && (dot(s) < len(s) ==> s[dot(s)] == '.') && (forall i int :: {s[i]} 0 <= i && i < dot(s) ==> s[i] != '.')
recspec head(s string) string = sub(s, 0, dot(s))
recspec rest(s string) string = ite(dot(s) < len(s), sub(s, dot(s) + 1, len(s)), "")

fn splitMetric(metric) (prefix, suffix)
  ensures prefix == head(metric) && suffix == rest(metric)

// the globs from number i match the components of m, one each
recspec run(g arr[string], o mathint, n mathint, i mathint, m string) bool = i >= n || (gm(g[o + i], 0, head(m), 0) && run(g, o, n, i + 1, rest(m)))
// they match from some component of m on
recspec somewhere(g arr[string], o mathint, n mathint, m string) bool = len(m) > 0 && (run(g, o, n, 0, m) || somewhere(g, o, n, rest(m)))
spec matches(sp spec, m string) bool = somewhere(elems(sp.globs), off(sp.globs), len(sp.globs), m)

fn (spec).Match(s, metric) (r)
  ghost M string = metric
  ghost C string = ""
  ghost X string = ""
  loop 0
    invariant matches(s, M) == matches(s, metric)
    decreases len(metric)
  at loop 0 set C := metric
  loop 1
    invariant metric == rest(C) && len(C) > 0 && part == head(X) && tail == rest(X)
    invariant run(elems(s.globs), off(s.globs), len(s.globs), 0, C) == run(elems(s.globs), off(s.globs), len(s.globs), $i, X)
  at preloop 1 set X := C
  at after splitMetric set X := ite($0 == tail, tail, X)
  ensures r == matches(s, metric)

// the names that matched are kept apart from the patterns
pred apart(s *Search) = forall i int :: {s.specs[i]} 0 <= i && i < len(s.specs) ==> arrof(s.specs[i].globs) != arrof(s.matched)

fn New(query, capacity) (s)
  requires len(query) <= 0xffffffffff
  loop 0
    invariant len(specs) == words(query) && fresh(specs)
    invariant forall i int :: {specs[i]} 0 <= i && i < $i ==> specOf(specs[i], word(query, i)) && fresh(specs[i].globs)
  ensures fresh(s) && len(s.specs) == words(query) && (forall i int :: {s.specs[i]} 0 <= i && i < len(s.specs) ==> specOf(s.specs[i], word(query, i)))
  ensures len(s.matched) == 0 && s.matched != nil && fresh(s.matched) && s.capacity == capacity && apart(s)

pred allMatch(s *Search, m string) = forall i int :: {s.specs[i]} 0 <= i && i < len(s.specs) ==> matches(s.specs[i], m)

fn (*Search).Match(s, metric) (r)
  loop 0
    invariant forall i int :: {s.specs[i]} 0 <= i && i < $i ==> matches(s.specs[i], metric)
  ensures r == allMatch(s, metric)

fn (*Search).Add(s, name) (more, err)
  requires apart(s)
  modifies s.matched, elems(s.matched)
  ensures apart(s) && (arrof(s.matched) == old(arrof(s.matched)) || fresh(s.matched))
  ensures err == nil && more == (old(len(s.matched)) < s.capacity)
  ensures len(s.matched) == old(len(s.matched)) + ite(more && allMatch(s, name), 1, 0)
  ensures forall i int :: {s.matched[i]} {old(s.matched[i])} 0 <= i && i < old(len(s.matched)) ==> s.matched[i] == old(s.matched[i])
  ensures len(s.matched) > old(len(s.matched)) ==> s.matched[old(len(s.matched))] == name
  ensures old(len(s.matched)) <= s.capacity ==> len(s.matched) <= s.capacity

fn (*Search).Matched(s) (r)
  ensures r == s.matched
