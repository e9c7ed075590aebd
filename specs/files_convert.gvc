package database/files

// What a directory name means: the decoder as a recursive function of the
// remaining bytes and the state (text so far, last token was a dot, only dots
// since a separator).
ufunc decR(s string, out string, last bool, all bool) string
ufunc decOk(s string) bool
axiom decNil(out string, last bool, all bool)
  ensures decR("", out, last, all) == ite(all, sub(out, 0, len(out) - 1), out)
  trigger decR("", out, last, all)
axiom decOkNil()
  ensures decOk("")
axiom decSlash(t string, out string, last bool, all bool)
  ensures decR(chr('/') + t, out, last, all) == ite(last, decR(t, out, last, all), decR(t, out + chr('.'), true, true))
  trigger decR(chr('/') + t, out, last, all)
axiom decDot(t string, out string, last bool, all bool)
  ensures decR("%2e" + t, out, last, all) == decR(t, out + chr('.'), true, all)
  trigger decR("%2e" + t, out, last, all)
axiom decEscSlash(t string, out string, last bool, all bool)
  ensures decR("%2f" + t, out, last, all) == decR(t, out + chr('/'), false, false)
  trigger decR("%2f" + t, out, last, all)
axiom decEscPct(t string, out string, last bool, all bool)
  ensures decR("%25" + t, out, last, all) == decR(t, out + chr('%'), false, false)
  trigger decR("%25" + t, out, last, all)
axiom decPlain(c byte, t string, out string, last bool, all bool)
  requires c != '/' && c != '%' && c != '.'
  ensures decR(chr(c) + t, out, last, all) == decR(t, out + chr(c), false, false)
  trigger decR(chr(c) + t, out, last, all)
axiom decOkPlain(c byte, t string)
  requires c != '%' && c != '.'
  ensures decOk(chr(c) + t) == decOk(t)
  trigger decOk(chr(c) + t)
axiom decOkEsc(t string)
  ensures decOk("%2e" + t) == decOk(t)
  trigger decOk("%2e" + t)
axiom decOkEsc2(t string)
  ensures decOk("%2f" + t) == decOk(t)
  trigger decOk("%2f" + t)
axiom decOkEsc3(t string)
  ensures decOk("%25" + t) == decOk(t)
  trigger decOk("%25" + t)
axiom decBad(s string)
  requires len(s) > 0 && (s[0] == '.' || (s[0] == '%' && !(len(s) >= 3 && s[1] == '2' && (s[2] == 'e' || s[2] == 'f' || s[2] == '5'))))
  ensures !decOk(s)
  trigger decOk(s)

// the text s splits off its first byte, or its first n bytes
lemma catAssoc(a string, b string, c string)
  ensures (a + b) + c == a + (b + c)
  trigger (a + b) + c

lemma splitFirst(s string, i int)
  requires 0 <= i && i < len(s)
  ensures sub(s, i, len(s)) == chr(s[i]) + sub(s, i+1, len(s))
lemma splitLast(s string, i int)
  requires 0 <= i && i < len(s)
  ensures sub(s, 0, i+1) == sub(s, 0, i) + chr(s[i])

// w decodes to (out, last, all), whatever follows
pred decodes(w string, out string, last bool, all bool) = forall t string :: {w + t} decR(w + t, "", false, false) == decR(t, out, last, all) && decOk(w + t) == decOk(t)

lemma subCatR(a string, b string, i int, j int)
  requires i == len(a) && j == len(a) + len(b)
  ensures sub(a + b, i, j) == b
  trigger sub(a + b, i, j)
lemma subCatL(a string, b string, j int)
  requires j == len(a)
  ensures sub(a + b, 0, j) == a
  trigger sub(a + b, 0, j)
lemma subCatP(a string, b string, j int)
  ensures 0 <= j && j <= len(a) ==> sub(a + b, 0, j) == sub(a, 0, j)
lemma subCatM(a string, b string, j int)
  requires len(a) <= j && j <= len(a) + len(b)
  ensures sub(a + b, 0, j) == a + sub(b, 0, j - len(a))
  trigger sub(a + b, 0, j)

lemma splitEsc(s string, i int)
  requires 0 <= i
  ensures i + 3 <= len(s) && s[i] == '%' && s[i+1] == '2' && s[i+2] == 'e' ==> sub(s, i, len(s)) == "%2e" + sub(s, i+3, len(s))
  ensures i + 3 <= len(s) && s[i] == '%' && s[i+1] == '2' && s[i+2] == 'f' ==> sub(s, i, len(s)) == "%2f" + sub(s, i+3, len(s))
  ensures i + 3 <= len(s) && s[i] == '%' && s[i+1] == '2' && s[i+2] == '5' ==> sub(s, i, len(s)) == "%25" + sub(s, i+3, len(s))

// s continues b + w
lemma extend(s string, b string, w string)
  requires len(s) >= len(b) + len(w) && sub(s, 0, len(b) + len(w)) == b + w
  ensures forall k int :: {s[k]} len(b) <= k && k < len(b) + len(w) ==> s[k] == sub(s, 0, len(b) + len(w))[k] && (b + w)[k] == w[k - len(b)]
  ensures s == b + sub(s, len(b), len(s))
  ensures sub(s, len(b), len(s)) == w + sub(s, len(b) + len(w), len(s))

fn dirToMetric(buf, dir) (r, err)
  opts strfacts
  using subCatR
  using subCatL
  requires arrof(buf) != arrof(dir) || len(dir) == 0
  modifies elems(buf)
  ghost D string = str(dir)
  ghost B0 string = str(buf)
  ghost W string = ""
  ghost gi mathint = 0
  ensures (err == nil) == decOk(old(str(dir)))
  ensures err == nil ==> len(r) >= len(buf) && str(r) == old(str(buf)) + decR(old(str(dir)), "", false, false)
  ensures fresh(r) || arrof(r) == arrof(buf) || r == nil
  loop 0
    invariant 0 <= i && i <= len(dir) && str(dir) == D
    invariant fresh(buf) || arrof(buf) == old(arrof(buf))
    invariant str(buf) == B0 + W
    invariant decOk(D) == decOk(sub(D, i, len(D)))
    invariant decR(D, "", false, false) == decR(sub(D, i, len(D)), W, last_dot, all_dots)
    invariant all_dots ==> len(W) > 0 && i > 0
    decreases len(dir) - i
  at loop 0 set gi := i
  at loop 0 use splitFirst(D, i)
  at loop 0 use splitEsc(D, i)
  at loopend 0 use extend(str(buf), B0, W)
  at exit use subCatM(B0, W, len(r))
  at loopend 0 set W := sub(str(buf), len(B0), len(buf))
  at postloop 0 hint sub(D, i, len(D)) == ""

lemma stepPlain(w string, out string, l bool, a bool, c byte)
  ensures c != '/' && c != '%' && c != '.' && decodes(w, out, l, a) ==> decodes(w + chr(c), out + chr(c), false, false)
  using catAssoc
lemma stepDot(w string, out string, l bool, a bool)
  ensures decodes(w, out, l, a) ==> decodes(w + "%2e", out + chr('.'), true, a)
  using catAssoc
lemma stepEscSlash(w string, out string, l bool, a bool)
  ensures decodes(w, out, l, a) ==> decodes(w + "%2f", out + chr('/'), false, false)
  using catAssoc
lemma stepEscPct(w string, out string, l bool, a bool)
  ensures decodes(w, out, l, a) ==> decodes(w + "%25", out + chr('%'), false, false)
  using catAssoc
lemma stepSlash(w string, out string, l bool, a bool)
  ensures decodes(w, out, l, a) ==> decodes(w + chr('/'), ite(l, out, out + chr('.')), true, ite(l, a, true))
  using catAssoc
lemma catEmpty(t string)
  ensures "" + t == t
  trigger "" + t
lemma emptyDecodes()
  using catEmpty
  ensures decodes("", "", false, false)

lemma fullDecodes(w string, out string, l bool, a bool)
  requires decodes(w, out, l, a)
  ensures w + "" == w && decOk(w) && decR(w, "", false, false) == ite(a, sub(out, 0, len(out) - 1), out)
  using catRight
lemma catRight(t string)
  ensures t + "" == t
  trigger t + ""

// no dot, no empty component, no leading separator
pred cleanDir(w string) = forall k int :: {w[k]} 0 <= k && k < len(w) ==> w[k] != '.' && (w[k] == '/' ==> k > 0 && (k + 1 < len(w) ==> w[k+1] != '/'))

fn metricToDir(buf, metric) (r)
  opts strfacts
  using subCatR
  using subCatL
  modifies elems(buf)
  ghost B0 string = str(buf)
  ghost W string = ""
  ghost M string = ""
  ghost T string = ""
  ghost gd mathint = 0
  ghost gn bool = false
  ensures fresh(r) || arrof(r) == arrof(buf)
  ensures str(r) == old(str(buf)) + sub(str(r), len(buf), len(r))
  ensures decOk(sub(str(r), len(buf), len(r)))
  ensures cleanDir(sub(str(r), len(buf), len(r)))
  ensures (len(r) == len(buf)) == (len(metric) == 0)
  ensures len(r) > len(buf) ==> r[len(r)-1] != '/'
  ensures decR(sub(str(r), len(buf), len(r)), "", false, false) == metric
  loop 0
    invariant 0 <= i && i <= len(metric) && 0 <= dots && dots <= i && (dots < i) == non_dots
    invariant fresh(buf) || arrof(buf) == old(arrof(buf))
    invariant str(buf) == B0 + W
    invariant M == sub(metric, 0, i)
    invariant cleanDir(W)
    invariant (len(W) == 0) == (i == 0)
    invariant len(W) > 0 && W[len(W)-1] == '/' ==> dots == 1 && non_dots
    invariant dots > 0 && non_dots ==> W[len(W) - 1 - (dots-1)*3] == '/'
    invariant decodes(W, M, dots > 0, dots > 0 && non_dots)
    invariant dots > 0 && non_dots ==> 1 + (dots-1)*3 <= len(W)
    invariant dots > 0 && non_dots ==> decodes(sub(W, 0, len(W) - 1 - (dots-1)*3), sub(metric, 0, i - dots), false, false)
    invariant dots > 0 && non_dots ==> forall k int :: {metric[k]} i - dots <= k && k < i ==> metric[k] == '.'
    decreases len(metric) - i
  at preloop 0 use emptyDecodes()
  at loop 0 set gd := dots
  at loop 0 set gn := non_dots
  at loop 0 use splitLast(metric, i)
  at loopend 0 use extend(str(buf), B0, W)
  at loopend 0 set T := sub(str(buf), len(B0) + len(W) + 1, len(buf))
  at loopend 0 use catAssoc(B0 + W, chr('/'), T)
  at loopend 0 use catAssoc(W, chr('/'), T)
  at loopend 0 use subCatP(W, sub(str(buf), len(B0) + len(W), len(buf)), len(W) - 1 - (gd-1)*3)
  at loopend 0 use stepPlain(W, M, gd > 0, gd > 0 && gn, metric[i-1])
  at loopend 0 use stepDot(W, M, gd > 0, gd > 0 && gn)
  at loopend 0 use stepEscSlash(W, M, gd > 0, gd > 0 && gn)
  at loopend 0 use stepEscPct(W, M, gd > 0, gd > 0 && gn)
  at loopend 0 use stepSlash(W, M, gd > 0, gd > 0 && gn)
  at loopend 0 use stepPlain(W + chr('/'), M, true, false, metric[i-1])
  at loopend 0 use stepEscSlash(W + chr('/'), M, true, false)
  at loopend 0 use stepEscPct(W + chr('/'), M, true, false)
  at loopend 0 set M := sub(metric, 0, i)
  at loopend 0 set W := sub(str(buf), len(B0), len(buf))
  loop 1
    invariant 0 <= i && i <= dots && dots <= len(metric)
    invariant fresh(buf) || arrof(buf) == old(arrof(buf))
    invariant str(buf) == B0 + W
    invariant M == sub(metric, 0, len(metric) - dots + i) + chr('.')
    invariant cleanDir(W)
    invariant len(W) > 0 && (i > 0 ==> W[len(W)-1] != '/')
    invariant decodes(W, M, true, true)
    invariant forall k int :: {metric[k]} len(metric) - dots <= k && k < len(metric) ==> metric[k] == '.'
    decreases dots - i
  at loop 1 use splitLast(metric, len(metric) - dots + i)
  at loopend 1 use extend(str(buf), B0, W)
  at loopend 1 use stepDot(W, M, true, true)
  at loopend 1 set M := M + chr('.')
  at loopend 1 set W := sub(str(buf), len(B0), len(buf))
  at preloop 1 use subCatM(B0, W, len(buf) - 1)
  at preloop 1 use stepSlash(sub(W, 0, len(W) - 1 - (dots-1)*3), sub(metric, 0, len(metric) - dots), false, false)
  at preloop 1 use extend(str(buf), B0, sub(W, 0, len(W) - 1 - (dots-1)*3))
  at preloop 1 set W := sub(W, 0, len(W) - 1 - (dots-1)*3) + chr('/')
  at preloop 1 set M := sub(metric, 0, len(metric) - dots) + chr('.')
  at exit use fullDecodes(W, M, dots > 0, dots > 0 && non_dots)
