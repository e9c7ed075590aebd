package data

// base-128 varints: the number of bytes, and the bytes themselves (at an absolute position of an array)
opaque sov(v mathint) mathint = ite(v < 0x80, 1, ite(v < 0x4000, 2, ite(v < 0x200000, 3, ite(v < 0x10000000, 4, ite(v < 0x800000000, 5, ite(v < 0x40000000000, 6, ite(v < 0x2000000000000, 7, ite(v < 0x100000000000000, 8, ite(v < 0x8000000000000000, 9, 10)))))))))
lemma sovRange(v mathint)
  ensures 1 <= sov(v) && sov(v) <= 10
  trigger sov(v)
  auto
opaque vb(v mathint, p mathint) mathint = (v / p) % 128 + ite(v / p >= 128, 128, 0)
opaque varAt(a arr[byte], o mathint, v mathint) bool = a[o] == vb(v, 1)
   && (v >= 0x80 ==> a[o+1] == vb(v, 0x80))
   && (v >= 0x4000 ==> a[o+2] == vb(v, 0x4000))
   && (v >= 0x200000 ==> a[o+3] == vb(v, 0x200000))
   && (v >= 0x10000000 ==> a[o+4] == vb(v, 0x10000000))
   && (v >= 0x800000000 ==> a[o+5] == vb(v, 0x800000000))
   && (v >= 0x40000000000 ==> a[o+6] == vb(v, 0x40000000000))
   && (v >= 0x2000000000000 ==> a[o+7] == vb(v, 0x2000000000000))
   && (v >= 0x100000000000000 ==> a[o+8] == vb(v, 0x100000000000000))
   && (v >= 0x8000000000000000 ==> a[o+9] == vb(v, 0x8000000000000000))
lemma varFrame(a arr[byte], b arr[byte], o mathint, v mathint)
  requires 0 <= v && varAt(a, o, v)
  requires forall k mathint :: {b[k]} o <= k && k < o + sov(v) ==> b[k] == a[k]
  ensures varAt(b, o, v)

fn sovRecord(x) (n)
  opts reveal=sov
  ensures n == sov(x)
  loop 0
    unroll 10

// dividing by 128 again and again
lemma divChain(v mathint)
  requires 0 <= v
  ensures (v / 0x80) / 128 == v / 0x4000
  ensures (v / 0x4000) / 128 == v / 0x200000
  ensures (v / 0x200000) / 128 == v / 0x10000000
  ensures (v / 0x10000000) / 128 == v / 0x800000000
  ensures (v / 0x800000000) / 128 == v / 0x40000000000
  ensures (v / 0x40000000000) / 128 == v / 0x2000000000000
  ensures (v / 0x2000000000000) / 128 == v / 0x100000000000000
  ensures (v / 0x100000000000000) / 128 == v / 0x8000000000000000

fn encodeVarintRecord(dAtA, offset, v) (n)
  opts reveal=sov,vb,varAt
  requires 0 <= offset && offset + sov(v) <= len(dAtA)
  modifies elems(dAtA)
  ensures n == offset + sov(v)
  ensures varAt(elems(dAtA), off(dAtA) + offset, v)
  ensures forall k int :: {elems(dAtA)[k]} k < off(dAtA) + offset || k >= off(dAtA) + n ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at entry use divChain(v)
  loop 0
    unroll 9

// reading: nothing is read out of bounds, every round reads at least one byte, and no element is longer than what is left
fn skipRecord(dAtA) (n, err)
  requires len(dAtA) > 0
  ensures err == nil ==> n > 0
  loop 0
    invariant 0 <= iNdEx && iNdEx <= len(dAtA) + MaxInt
    invariant depth >= 0 && depth <= iNdEx
    invariant iNdEx > 0 ==> depth > 0
    decreases len(dAtA) - iNdEx
  loop 1
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 2
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 3
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  at postloop 1 hint iNdEx > 0
  at postloop 3 hint iNdEx > 0


// the size of the encoding: the fields that are not zero
spec fsz(x mathint) mathint = ite(x != 0, 1 + sov(u64(x)), 0)
spec bsz(n mathint) mathint = ite(n > 0, 1 + n + sov(n), 0)
spec recSize(m Record) mathint = fsz(m.StartTime) + fsz(m.EndTime) + fsz(m.Observations) + bsz(len(m.Distribution)) + bsz(len(m.Kind)) + ite(feq(m.Min, 0.0), 0, 9) + ite(feq(m.Max, 0.0), 0, 9) + bsz(len(m.MinId)) + bsz(len(m.MaxId)) + fsz(m.Merged)

// lengths of memory in use are far below the largest integer
pred fitsInt(m Record) = len(m.Distribution) <= 0xffffffffff && len(m.Kind) <= 0xffffffffff && len(m.MinId) <= 0xffffffffff && len(m.MaxId) <= 0xffffffffff

fn (*Record).Size(m) (n)
  requires fitsInt(*m)
  ensures n == recSize(*m) && 0 <= n && n <= 0x7ffffffffff

// reading the bytes of a varint: all but the last have the top bit set, and the low seven bits of each add to what the
// bytes before it gave
opaque low(v mathint, p mathint) mathint = v % p
lemma varLow(v mathint)
  requires 0 <= v && v < 0x10000000000000000
  ensures 0 <= low(v, 0x80) && low(v, 0x80) < 0x80
  ensures 0 <= low(v, 0x4000) && low(v, 0x4000) < 0x4000
  ensures 0 <= low(v, 0x200000) && low(v, 0x200000) < 0x200000
  ensures 0 <= low(v, 0x10000000) && low(v, 0x10000000) < 0x10000000
  ensures 0 <= low(v, 0x800000000) && low(v, 0x800000000) < 0x800000000
  ensures 0 <= low(v, 0x40000000000) && low(v, 0x40000000000) < 0x40000000000
  ensures 0 <= low(v, 0x2000000000000) && low(v, 0x2000000000000) < 0x2000000000000
  ensures 0 <= low(v, 0x100000000000000) && low(v, 0x100000000000000) < 0x100000000000000
  ensures 0 <= low(v, 0x8000000000000000) && low(v, 0x8000000000000000) < 0x8000000000000000
  ensures low(v, 1) == 0
  ensures sov(v) == 1 ==> low(v, 0x80) == v
  ensures sov(v) == 2 ==> low(v, 0x4000) == v
  ensures sov(v) == 3 ==> low(v, 0x200000) == v
  ensures sov(v) == 4 ==> low(v, 0x10000000) == v
  ensures sov(v) == 5 ==> low(v, 0x800000000) == v
  ensures sov(v) == 6 ==> low(v, 0x40000000000) == v
  ensures sov(v) == 7 ==> low(v, 0x2000000000000) == v
  ensures sov(v) == 8 ==> low(v, 0x100000000000000) == v
  ensures sov(v) == 9 ==> low(v, 0x8000000000000000) == v
  ensures sov(v) == 10 ==> low(v, 0x400000000000000000) == v
lemma varRead(a arr[byte], o mathint, v mathint)
  requires 0 <= v && v < 0x10000000000000000 && varAt(a, o, v)
  using divChain(v)
  ensures 0 < sov(v) ==> low(v, 0x80) == low(v, 0x1) + (a[o+0] % 128) * 0x1
  ensures 1 < sov(v) ==> low(v, 0x4000) == low(v, 0x80) + (a[o+1] % 128) * 0x80
  ensures 2 < sov(v) ==> low(v, 0x200000) == low(v, 0x4000) + (a[o+2] % 128) * 0x4000
  ensures 3 < sov(v) ==> low(v, 0x10000000) == low(v, 0x200000) + (a[o+3] % 128) * 0x200000
  ensures 4 < sov(v) ==> low(v, 0x800000000) == low(v, 0x10000000) + (a[o+4] % 128) * 0x10000000
  ensures 5 < sov(v) ==> low(v, 0x40000000000) == low(v, 0x800000000) + (a[o+5] % 128) * 0x800000000
  ensures 6 < sov(v) ==> low(v, 0x2000000000000) == low(v, 0x40000000000) + (a[o+6] % 128) * 0x40000000000
  ensures 7 < sov(v) ==> low(v, 0x100000000000000) == low(v, 0x2000000000000) + (a[o+7] % 128) * 0x2000000000000
  ensures 8 < sov(v) ==> low(v, 0x8000000000000000) == low(v, 0x100000000000000) + (a[o+8] % 128) * 0x100000000000000
  ensures 9 < sov(v) ==> low(v, 0x400000000000000000) == low(v, 0x8000000000000000) + (a[o+9] % 128) * 0x8000000000000000
  ensures 0 <= a[o+0] && a[o+0] <= 255 ==> (0 < sov(v) ==> (a[o+0] < 128) == (sov(v) == 1))
  ensures 0 <= a[o+1] && a[o+1] <= 255 ==> (1 < sov(v) ==> (a[o+1] < 128) == (sov(v) == 2))
  ensures 0 <= a[o+2] && a[o+2] <= 255 ==> (2 < sov(v) ==> (a[o+2] < 128) == (sov(v) == 3))
  ensures 0 <= a[o+3] && a[o+3] <= 255 ==> (3 < sov(v) ==> (a[o+3] < 128) == (sov(v) == 4))
  ensures 0 <= a[o+4] && a[o+4] <= 255 ==> (4 < sov(v) ==> (a[o+4] < 128) == (sov(v) == 5))
  ensures 0 <= a[o+5] && a[o+5] <= 255 ==> (5 < sov(v) ==> (a[o+5] < 128) == (sov(v) == 6))
  ensures 0 <= a[o+6] && a[o+6] <= 255 ==> (6 < sov(v) ==> (a[o+6] < 128) == (sov(v) == 7))
  ensures 0 <= a[o+7] && a[o+7] <= 255 ==> (7 < sov(v) ==> (a[o+7] < 128) == (sov(v) == 8))
  ensures 0 <= a[o+8] && a[o+8] <= 255 ==> (8 < sov(v) ==> (a[o+8] < 128) == (sov(v) == 9))
  ensures 0 <= a[o+9] && a[o+9] <= 255 ==> (9 < sov(v) ==> (a[o+9] < 128) == (sov(v) == 10))
  ensures sov(v) == 10 ==> a[o+9] == 1
spec pw(s mathint) mathint = ite(s == 0, 0x1, ite(s == 7, 0x80, ite(s == 14, 0x4000, ite(s == 21, 0x200000, ite(s == 28, 0x10000000, ite(s == 35, 0x800000000, ite(s == 42, 0x40000000000, ite(s == 49, 0x2000000000000, ite(s == 56, 0x100000000000000, 0x8000000000000000)))))))))

// a record's fields, the bytes as strings (verifRec is verification code, in the overlay); any one: wantedRec
ghostvar wantedRec verifRec
pred isRec(m Record, w verifRec) = m.StartTime == w.StartTime && m.EndTime == w.EndTime && m.Observations == w.Observations && str(m.Distribution) == w.Distribution && m.Kind == w.Kind && m.Min == w.Min && m.Max == w.Max && str(m.MinId) == w.MinId && str(m.MaxId) == w.MaxId && m.Merged == w.Merged
// the encoding: the fields that are not zero, in order
opaque fldV(a arr[byte], o mathint, tag mathint, x mathint) bool = x != 0 ==> a[o] == tag && varAt(a, o + 1, u64(x))
opaque fldB(a arr[byte], o mathint, tag mathint, s string) bool = len(s) > 0 ==> a[o] == tag && varAt(a, o + 1, len(s)) && str(a, o + 1 + sov(len(s)), len(s)) == s
opaque fldF(a arr[byte], o mathint, tag mathint, x float64) bool = !feq(x, 0.0) ==> a[o] == tag && le64(a, o + 1) == f64bits(x)
opaque p0(w verifRec) mathint = 0
opaque p1(w verifRec) mathint = p0(w) + fsz(w.StartTime)
opaque p2(w verifRec) mathint = p1(w) + fsz(w.EndTime)
opaque p3(w verifRec) mathint = p2(w) + fsz(w.Observations)
opaque p4(w verifRec) mathint = p3(w) + bsz(len(w.Distribution))
opaque p5(w verifRec) mathint = p4(w) + bsz(len(w.Kind))
opaque p6(w verifRec) mathint = p5(w) + ite(feq(w.Min, 0.0), 0, 9)
opaque p7(w verifRec) mathint = p6(w) + ite(feq(w.Max, 0.0), 0, 9)
opaque p8(w verifRec) mathint = p7(w) + bsz(len(w.MinId))
opaque p9(w verifRec) mathint = p8(w) + bsz(len(w.MaxId))
opaque p10(w verifRec) mathint = p9(w) + fsz(w.Merged)
// the fields that end at n or before
opaque upto(a arr[byte], o mathint, w verifRec, n mathint) bool = (p1(w) <= n ==> fldV(a, o + p0(w), 0x8, w.StartTime)) && (p2(w) <= n ==> fldV(a, o + p1(w), 0x10, w.EndTime)) && (p3(w) <= n ==> fldV(a, o + p2(w), 0x18, w.Observations)) && (p4(w) <= n ==> fldB(a, o + p3(w), 0x22, w.Distribution)) && (p5(w) <= n ==> fldB(a, o + p4(w), 0x2a, w.Kind)) && (p6(w) <= n ==> fldF(a, o + p5(w), 0x31, w.Min)) && (p7(w) <= n ==> fldF(a, o + p6(w), 0x39, w.Max)) && (p8(w) <= n ==> fldB(a, o + p7(w), 0x42, w.MinId)) && (p9(w) <= n ==> fldB(a, o + p8(w), 0x4a, w.MaxId)) && (p10(w) <= n ==> fldV(a, o + p9(w), 0x50, w.Merged))
pred lensOk(w verifRec) = len(w.Distribution) <= 0xffffffffff && len(w.Kind) <= 0xffffffffff && len(w.MinId) <= 0xffffffffff && len(w.MaxId) <= 0xffffffffff
lemma sameStr(a arr[byte], b arr[byte], o mathint, n mathint)
  requires forall k mathint :: {a[k]} 0 <= a[k] && a[k] <= 255
  requires forall k mathint :: {b[k]} o <= k && k < o + n ==> b[k] == a[k]
  requires 0 <= n && n <= 0xffffffffff
  ensures str(a, o, n) == str(b, o, n)
lemma fldFrameV(a arr[byte], b arr[byte], o mathint, tag mathint, x mathint)
  reveal fldV
  using sovRange(u64(x))
  requires forall k mathint :: {b[k]} o <= k && k < o + fsz(x) ==> b[k] == a[k]
  using varFrame(a, b, o + 1, u64(x))
  ensures fldV(a, o, tag, x) ==> fldV(b, o, tag, x)
lemma fldFrameB(a arr[byte], b arr[byte], o mathint, tag mathint, s string)
  reveal fldB
  requires len(s) <= 0xffffffffff
  requires forall k mathint :: {a[k]} 0 <= a[k] && a[k] <= 255
  using sovRange(len(s))
  requires forall k mathint :: {b[k]} o <= k && k < o + bsz(len(s)) ==> b[k] == a[k]
  using varFrame(a, b, o + 1, len(s))
  using sameStr(a, b, o + 1 + sov(len(s)), len(s))
  ensures fldB(a, o, tag, s) ==> fldB(b, o, tag, s)
lemma fldFrameF(a arr[byte], b arr[byte], o mathint, tag mathint, x float64)
  reveal fldF
  requires forall k mathint :: {b[k]} o <= k && k < o + ite(feq(x, 0.0), 0, 9) ==> b[k] == a[k]
  ensures fldF(a, o, tag, x) ==> fldF(b, o, tag, x)
lemma fldMkV(a arr[byte], o mathint, tag mathint, x mathint)
  reveal fldV
  ensures a[o] == tag && varAt(a, o + 1, u64(x)) ==> fldV(a, o, tag, x)
lemma fldMkB(a arr[byte], o mathint, tag mathint, s string)
  reveal fldB
  ensures a[o] == tag && varAt(a, o + 1, len(s)) && str(a, o + 1 + sov(len(s)), len(s)) == s ==> fldB(a, o, tag, s)
lemma fldMkF(a arr[byte], o mathint, tag mathint, x float64)
  reveal fldF
  ensures a[o] == tag && le64(a, o + 1) == f64bits(x) ==> fldF(a, o, tag, x)
lemma fldNoneV(a arr[byte], o mathint, tag mathint)
  reveal fldV
  ensures fldV(a, o, tag, 0)
lemma fldNoneB(a arr[byte], o mathint, tag mathint, s string)
  reveal fldB
  ensures len(s) == 0 ==> fldB(a, o, tag, s)
lemma fldNoneF(a arr[byte], o mathint, tag mathint, x float64)
  reveal fldF
  ensures feq(x, 0.0) ==> fldF(a, o, tag, x)
lemma places(w verifRec)
  reveal p0,p1,p2,p3,p4,p5,p6,p7,p8,p9,p10
  ensures p0(w) == 0
  ensures p1(w) == p0(w) + fsz(w.StartTime)
  ensures p2(w) == p1(w) + fsz(w.EndTime)
  ensures p3(w) == p2(w) + fsz(w.Observations)
  ensures p4(w) == p3(w) + bsz(len(w.Distribution))
  ensures p5(w) == p4(w) + bsz(len(w.Kind))
  ensures p6(w) == p5(w) + ite(feq(w.Min, 0.0), 0, 9)
  ensures p7(w) == p6(w) + ite(feq(w.Max, 0.0), 0, 9)
  ensures p8(w) == p7(w) + bsz(len(w.MinId))
  ensures p9(w) == p8(w) + bsz(len(w.MaxId))
  ensures p10(w) == p9(w) + fsz(w.Merged)
  using sovRange(u64(w.StartTime))
  using sovRange(u64(w.EndTime))
  using sovRange(u64(w.Observations))
  using sovRange(len(w.Distribution))
  using sovRange(len(w.Kind))
  using sovRange(len(w.MinId))
  using sovRange(len(w.MaxId))
  using sovRange(u64(w.Merged))
  ensures p0(w) <= p1(w) && p1(w) <= p2(w) && p2(w) <= p3(w) && p3(w) <= p4(w) && p4(w) <= p5(w) && p5(w) <= p6(w) && p6(w) <= p7(w) && p7(w) <= p8(w) && p8(w) <= p9(w) && p9(w) <= p10(w)
lemma uptoFrame(a arr[byte], b arr[byte], o mathint, w verifRec, n mathint)
  reveal upto
  requires lensOk(w)
  requires forall k mathint :: {a[k]} 0 <= a[k] && a[k] <= 255
  requires forall k mathint :: {b[k]} o <= k && k < o + n ==> b[k] == a[k]
  using fldFrameV(a, b, o + p0(w), 0x8, w.StartTime)
  using fldFrameV(a, b, o + p1(w), 0x10, w.EndTime)
  using fldFrameV(a, b, o + p2(w), 0x18, w.Observations)
  using fldFrameB(a, b, o + p3(w), 0x22, w.Distribution)
  using fldFrameB(a, b, o + p4(w), 0x2a, w.Kind)
  using fldFrameF(a, b, o + p5(w), 0x31, w.Min)
  using fldFrameF(a, b, o + p6(w), 0x39, w.Max)
  using fldFrameB(a, b, o + p7(w), 0x42, w.MinId)
  using fldFrameB(a, b, o + p8(w), 0x4a, w.MaxId)
  using fldFrameV(a, b, o + p9(w), 0x50, w.Merged)
  using places(w)
  ensures upto(a, o, w, n) ==> upto(b, o, w, n)
lemma uptoStep(a arr[byte], o mathint, w verifRec, d mathint, n mathint)
  reveal upto
  requires upto(a, o, w, d)
  using places(w)
  using fldNoneV(a, o + p0(w), 0x8)
  using sovRange(u64(w.StartTime))
  using fldNoneV(a, o + p1(w), 0x10)
  using sovRange(u64(w.EndTime))
  using fldNoneV(a, o + p2(w), 0x18)
  using sovRange(u64(w.Observations))
  using fldNoneB(a, o + p3(w), 0x22, w.Distribution)
  using sovRange(len(w.Distribution))
  using fldNoneB(a, o + p4(w), 0x2a, w.Kind)
  using sovRange(len(w.Kind))
  using fldNoneF(a, o + p5(w), 0x31, w.Min)
  using fldNoneF(a, o + p6(w), 0x39, w.Max)
  using fldNoneB(a, o + p7(w), 0x42, w.MinId)
  using sovRange(len(w.MinId))
  using fldNoneB(a, o + p8(w), 0x4a, w.MaxId)
  using sovRange(len(w.MaxId))
  using fldNoneV(a, o + p9(w), 0x50)
  using sovRange(u64(w.Merged))
  ensures d == p0(w) && n == p1(w) && fldV(a, o + p0(w), 0x8, w.StartTime) ==> upto(a, o, w, n)
  ensures d == p1(w) && n == p2(w) && fldV(a, o + p1(w), 0x10, w.EndTime) ==> upto(a, o, w, n)
  ensures d == p2(w) && n == p3(w) && fldV(a, o + p2(w), 0x18, w.Observations) ==> upto(a, o, w, n)
  ensures d == p3(w) && n == p4(w) && fldB(a, o + p3(w), 0x22, w.Distribution) ==> upto(a, o, w, n)
  ensures d == p4(w) && n == p5(w) && fldB(a, o + p4(w), 0x2a, w.Kind) ==> upto(a, o, w, n)
  ensures d == p5(w) && n == p6(w) && fldF(a, o + p5(w), 0x31, w.Min) ==> upto(a, o, w, n)
  ensures d == p6(w) && n == p7(w) && fldF(a, o + p6(w), 0x39, w.Max) ==> upto(a, o, w, n)
  ensures d == p7(w) && n == p8(w) && fldB(a, o + p7(w), 0x42, w.MinId) ==> upto(a, o, w, n)
  ensures d == p8(w) && n == p9(w) && fldB(a, o + p8(w), 0x4a, w.MaxId) ==> upto(a, o, w, n)
  ensures d == p9(w) && n == p10(w) && fldV(a, o + p9(w), 0x50, w.Merged) ==> upto(a, o, w, n)
lemma uptoNone(a arr[byte], o mathint, w verifRec)
  reveal upto
  using places(w)
  using fldNoneV(a, o + p0(w), 0x8)
  using sovRange(u64(w.StartTime))
  using fldNoneV(a, o + p1(w), 0x10)
  using sovRange(u64(w.EndTime))
  using fldNoneV(a, o + p2(w), 0x18)
  using sovRange(u64(w.Observations))
  using fldNoneB(a, o + p3(w), 0x22, w.Distribution)
  using sovRange(len(w.Distribution))
  using fldNoneB(a, o + p4(w), 0x2a, w.Kind)
  using sovRange(len(w.Kind))
  using fldNoneF(a, o + p5(w), 0x31, w.Min)
  using fldNoneF(a, o + p6(w), 0x39, w.Max)
  using fldNoneB(a, o + p7(w), 0x42, w.MinId)
  using sovRange(len(w.MinId))
  using fldNoneB(a, o + p8(w), 0x4a, w.MaxId)
  using sovRange(len(w.MaxId))
  using fldNoneV(a, o + p9(w), 0x50)
  using sovRange(u64(w.Merged))
  ensures upto(a, o, w, 0)

pred notIn(b []byte, d []byte) = len(b) > 0 ==> arrof(b) != arrof(d)

fn (*Record).MarshalTo(m, dAtA) (n, err)
  opts strfacts
  requires fitsInt(*m) && recSize(*m) <= len(dAtA)
  modifies elems(dAtA)
  ghost good bool = isRec(*m, wantedRec) && notIn(m.Distribution, dAtA) && notIn(m.MinId, dAtA) && notIn(m.MaxId, dAtA)
  ghost done mathint = 0
  ghost prev arr[byte] = elems(dAtA)
  ensures err == nil && n == recSize(*m)
  ensures old(isRec(*m, wantedRec)) && notIn(m.Distribution, dAtA) && notIn(m.MinId, dAtA) && notIn(m.MaxId, dAtA) ==> upto(elems(dAtA), off(dAtA), wantedRec, n) && n == p10(wantedRec)
  ensures forall k int :: {elems(dAtA)[k]} k < off(dAtA) || k >= off(dAtA) + n ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at entry use places(wantedRec)
  at entry use uptoNone(elems(dAtA), off(dAtA), wantedRec)
  at after copy assert forall k int :: {elems(dAtA)[k]} k < off(dAtA) || k >= off(dAtA) + i + $r0 ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at after PutUint64 assert forall k int :: {elems(dAtA)[k]} k < off(dAtA) || k >= off(dAtA) + i + 8 ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at after encodeVarintRecord assert forall k int :: {elems(dAtA)[k]} k < off(dAtA) || k >= off(dAtA) + $r0 ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at after encodeVarintRecord#1 assert good ==> $1 == p0(wantedRec) + 1 && done == p0(wantedRec)
  at after encodeVarintRecord#1 assert good ==> upto(prev, off(dAtA), wantedRec, p0(wantedRec))
  at after encodeVarintRecord#1 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p0(wantedRec))
  at after encodeVarintRecord#1 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p0(wantedRec))
  at after encodeVarintRecord#1 assert good ==> elems(dAtA)[off(dAtA) + p0(wantedRec)] == 0x8
  at after encodeVarintRecord#1 assert good ==> varAt(elems(dAtA), off(dAtA) + p0(wantedRec) + 1, u64(wantedRec.StartTime))
  at after encodeVarintRecord#1 use fldMkV(elems(dAtA), off(dAtA) + p0(wantedRec), 0x8, wantedRec.StartTime)
  at after encodeVarintRecord#1 assert good ==> fldV(elems(dAtA), off(dAtA) + p0(wantedRec), 0x8, wantedRec.StartTime)
  at after encodeVarintRecord#1 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p0(wantedRec), p1(wantedRec))
  at after encodeVarintRecord#1 assert good ==> $r0 == p1(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p1(wantedRec))
  at after encodeVarintRecord#1 set prev := elems(dAtA)
  at after encodeVarintRecord#1 set done := $r0
  at after encodeVarintRecord#2 assert good ==> $1 == p1(wantedRec) + 1 && done == p1(wantedRec)
  at after encodeVarintRecord#2 assert good ==> upto(prev, off(dAtA), wantedRec, p1(wantedRec))
  at after encodeVarintRecord#2 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p1(wantedRec))
  at after encodeVarintRecord#2 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p1(wantedRec))
  at after encodeVarintRecord#2 assert good ==> elems(dAtA)[off(dAtA) + p1(wantedRec)] == 0x10
  at after encodeVarintRecord#2 assert good ==> varAt(elems(dAtA), off(dAtA) + p1(wantedRec) + 1, u64(wantedRec.EndTime))
  at after encodeVarintRecord#2 use fldMkV(elems(dAtA), off(dAtA) + p1(wantedRec), 0x10, wantedRec.EndTime)
  at after encodeVarintRecord#2 assert good ==> fldV(elems(dAtA), off(dAtA) + p1(wantedRec), 0x10, wantedRec.EndTime)
  at after encodeVarintRecord#2 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p1(wantedRec), p2(wantedRec))
  at after encodeVarintRecord#2 assert good ==> $r0 == p2(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p2(wantedRec))
  at after encodeVarintRecord#2 set prev := elems(dAtA)
  at after encodeVarintRecord#2 set done := $r0
  at after encodeVarintRecord#3 assert good ==> $1 == p2(wantedRec) + 1 && done == p2(wantedRec)
  at after encodeVarintRecord#3 assert good ==> upto(prev, off(dAtA), wantedRec, p2(wantedRec))
  at after encodeVarintRecord#3 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p2(wantedRec))
  at after encodeVarintRecord#3 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p2(wantedRec))
  at after encodeVarintRecord#3 assert good ==> elems(dAtA)[off(dAtA) + p2(wantedRec)] == 0x18
  at after encodeVarintRecord#3 assert good ==> varAt(elems(dAtA), off(dAtA) + p2(wantedRec) + 1, u64(wantedRec.Observations))
  at after encodeVarintRecord#3 use fldMkV(elems(dAtA), off(dAtA) + p2(wantedRec), 0x18, wantedRec.Observations)
  at after encodeVarintRecord#3 assert good ==> fldV(elems(dAtA), off(dAtA) + p2(wantedRec), 0x18, wantedRec.Observations)
  at after encodeVarintRecord#3 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p2(wantedRec), p3(wantedRec))
  at after encodeVarintRecord#3 assert good ==> $r0 == p3(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p3(wantedRec))
  at after encodeVarintRecord#3 set prev := elems(dAtA)
  at after encodeVarintRecord#3 set done := $r0
  at after encodeVarintRecord#4 assert good ==> $1 == p3(wantedRec) + 1 && done == p3(wantedRec)
  at after encodeVarintRecord#4 assert good ==> upto(prev, off(dAtA), wantedRec, p3(wantedRec))
  at after encodeVarintRecord#4 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p3(wantedRec))
  at after encodeVarintRecord#4 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p3(wantedRec))
  at after encodeVarintRecord#4 set prev := elems(dAtA)
  at after copy#1 assert good ==> $r0 == len(wantedRec.Distribution) && i == p3(wantedRec) + 1 + sov(len(wantedRec.Distribution))
  at after copy#1 use varFrame(prev, elems(dAtA), off(dAtA) + p3(wantedRec) + 1, len(wantedRec.Distribution))
  at after copy#1 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p3(wantedRec))
  at after copy#1 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p3(wantedRec))
  at after copy#1 assert good ==> str(elems(dAtA), off(dAtA) + p3(wantedRec) + 1 + sov(len(wantedRec.Distribution)), len(wantedRec.Distribution)) == wantedRec.Distribution
  at after copy#1 assert good ==> elems(dAtA)[off(dAtA) + p3(wantedRec)] == 0x22
  at after copy#1 assert good ==> varAt(elems(dAtA), off(dAtA) + p3(wantedRec) + 1, len(wantedRec.Distribution))
  at after copy#1 use fldMkB(elems(dAtA), off(dAtA) + p3(wantedRec), 0x22, wantedRec.Distribution)
  at after copy#1 assert good ==> fldB(elems(dAtA), off(dAtA) + p3(wantedRec), 0x22, wantedRec.Distribution)
  at after copy#1 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p3(wantedRec), p4(wantedRec))
  at after copy#1 assert good ==> i + $r0 == p4(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p4(wantedRec))
  at after copy#1 set prev := elems(dAtA)
  at after copy#1 set done := i + $r0
  at after encodeVarintRecord#5 assert good ==> $1 == p4(wantedRec) + 1 && done == p4(wantedRec)
  at after encodeVarintRecord#5 assert good ==> upto(prev, off(dAtA), wantedRec, p4(wantedRec))
  at after encodeVarintRecord#5 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p4(wantedRec))
  at after encodeVarintRecord#5 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p4(wantedRec))
  at after encodeVarintRecord#5 set prev := elems(dAtA)
  at after copy#2 assert good ==> $r0 == len(wantedRec.Kind) && i == p4(wantedRec) + 1 + sov(len(wantedRec.Kind))
  at after copy#2 use varFrame(prev, elems(dAtA), off(dAtA) + p4(wantedRec) + 1, len(wantedRec.Kind))
  at after copy#2 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p4(wantedRec))
  at after copy#2 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p4(wantedRec))
  at after copy#2 assert good ==> str(elems(dAtA), off(dAtA) + p4(wantedRec) + 1 + sov(len(wantedRec.Kind)), len(wantedRec.Kind)) == wantedRec.Kind
  at after copy#2 assert good ==> elems(dAtA)[off(dAtA) + p4(wantedRec)] == 0x2a
  at after copy#2 assert good ==> varAt(elems(dAtA), off(dAtA) + p4(wantedRec) + 1, len(wantedRec.Kind))
  at after copy#2 use fldMkB(elems(dAtA), off(dAtA) + p4(wantedRec), 0x2a, wantedRec.Kind)
  at after copy#2 assert good ==> fldB(elems(dAtA), off(dAtA) + p4(wantedRec), 0x2a, wantedRec.Kind)
  at after copy#2 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p4(wantedRec), p5(wantedRec))
  at after copy#2 assert good ==> i + $r0 == p5(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p5(wantedRec))
  at after copy#2 set prev := elems(dAtA)
  at after copy#2 set done := i + $r0
  at after PutUint64#1 assert good ==> i == p5(wantedRec) + 1 && done == p5(wantedRec)
  at after PutUint64#1 assert good ==> upto(prev, off(dAtA), wantedRec, p5(wantedRec))
  at after PutUint64#1 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p5(wantedRec))
  at after PutUint64#1 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p5(wantedRec))
  at after PutUint64#1 assert good ==> elems(dAtA)[off(dAtA) + p5(wantedRec)] == 0x31
  at after PutUint64#1 assert good ==> le64(elems(dAtA), off(dAtA) + p5(wantedRec) + 1) == f64bits(wantedRec.Min)
  at after PutUint64#1 use fldMkF(elems(dAtA), off(dAtA) + p5(wantedRec), 0x31, wantedRec.Min)
  at after PutUint64#1 assert good ==> fldF(elems(dAtA), off(dAtA) + p5(wantedRec), 0x31, wantedRec.Min)
  at after PutUint64#1 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p5(wantedRec), p6(wantedRec))
  at after PutUint64#1 assert good ==> i + 8 == p6(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p6(wantedRec))
  at after PutUint64#1 set prev := elems(dAtA)
  at after PutUint64#1 set done := i + 8
  at after PutUint64#2 assert good ==> i == p6(wantedRec) + 1 && done == p6(wantedRec)
  at after PutUint64#2 assert good ==> upto(prev, off(dAtA), wantedRec, p6(wantedRec))
  at after PutUint64#2 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p6(wantedRec))
  at after PutUint64#2 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p6(wantedRec))
  at after PutUint64#2 assert good ==> elems(dAtA)[off(dAtA) + p6(wantedRec)] == 0x39
  at after PutUint64#2 assert good ==> le64(elems(dAtA), off(dAtA) + p6(wantedRec) + 1) == f64bits(wantedRec.Max)
  at after PutUint64#2 use fldMkF(elems(dAtA), off(dAtA) + p6(wantedRec), 0x39, wantedRec.Max)
  at after PutUint64#2 assert good ==> fldF(elems(dAtA), off(dAtA) + p6(wantedRec), 0x39, wantedRec.Max)
  at after PutUint64#2 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p6(wantedRec), p7(wantedRec))
  at after PutUint64#2 assert good ==> i + 8 == p7(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p7(wantedRec))
  at after PutUint64#2 set prev := elems(dAtA)
  at after PutUint64#2 set done := i + 8
  at after encodeVarintRecord#6 assert good ==> $1 == p7(wantedRec) + 1 && done == p7(wantedRec)
  at after encodeVarintRecord#6 assert good ==> upto(prev, off(dAtA), wantedRec, p7(wantedRec))
  at after encodeVarintRecord#6 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p7(wantedRec))
  at after encodeVarintRecord#6 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p7(wantedRec))
  at after encodeVarintRecord#6 set prev := elems(dAtA)
  at after copy#3 assert good ==> $r0 == len(wantedRec.MinId) && i == p7(wantedRec) + 1 + sov(len(wantedRec.MinId))
  at after copy#3 use varFrame(prev, elems(dAtA), off(dAtA) + p7(wantedRec) + 1, len(wantedRec.MinId))
  at after copy#3 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p7(wantedRec))
  at after copy#3 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p7(wantedRec))
  at after copy#3 assert good ==> str(elems(dAtA), off(dAtA) + p7(wantedRec) + 1 + sov(len(wantedRec.MinId)), len(wantedRec.MinId)) == wantedRec.MinId
  at after copy#3 assert good ==> elems(dAtA)[off(dAtA) + p7(wantedRec)] == 0x42
  at after copy#3 assert good ==> varAt(elems(dAtA), off(dAtA) + p7(wantedRec) + 1, len(wantedRec.MinId))
  at after copy#3 use fldMkB(elems(dAtA), off(dAtA) + p7(wantedRec), 0x42, wantedRec.MinId)
  at after copy#3 assert good ==> fldB(elems(dAtA), off(dAtA) + p7(wantedRec), 0x42, wantedRec.MinId)
  at after copy#3 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p7(wantedRec), p8(wantedRec))
  at after copy#3 assert good ==> i + $r0 == p8(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p8(wantedRec))
  at after copy#3 set prev := elems(dAtA)
  at after copy#3 set done := i + $r0
  at after encodeVarintRecord#7 assert good ==> $1 == p8(wantedRec) + 1 && done == p8(wantedRec)
  at after encodeVarintRecord#7 assert good ==> upto(prev, off(dAtA), wantedRec, p8(wantedRec))
  at after encodeVarintRecord#7 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p8(wantedRec))
  at after encodeVarintRecord#7 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p8(wantedRec))
  at after encodeVarintRecord#7 set prev := elems(dAtA)
  at after copy#4 assert good ==> $r0 == len(wantedRec.MaxId) && i == p8(wantedRec) + 1 + sov(len(wantedRec.MaxId))
  at after copy#4 use varFrame(prev, elems(dAtA), off(dAtA) + p8(wantedRec) + 1, len(wantedRec.MaxId))
  at after copy#4 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p8(wantedRec))
  at after copy#4 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p8(wantedRec))
  at after copy#4 assert good ==> str(elems(dAtA), off(dAtA) + p8(wantedRec) + 1 + sov(len(wantedRec.MaxId)), len(wantedRec.MaxId)) == wantedRec.MaxId
  at after copy#4 assert good ==> elems(dAtA)[off(dAtA) + p8(wantedRec)] == 0x4a
  at after copy#4 assert good ==> varAt(elems(dAtA), off(dAtA) + p8(wantedRec) + 1, len(wantedRec.MaxId))
  at after copy#4 use fldMkB(elems(dAtA), off(dAtA) + p8(wantedRec), 0x4a, wantedRec.MaxId)
  at after copy#4 assert good ==> fldB(elems(dAtA), off(dAtA) + p8(wantedRec), 0x4a, wantedRec.MaxId)
  at after copy#4 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p8(wantedRec), p9(wantedRec))
  at after copy#4 assert good ==> i + $r0 == p9(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p9(wantedRec))
  at after copy#4 set prev := elems(dAtA)
  at after copy#4 set done := i + $r0
  at after encodeVarintRecord#8 assert good ==> $1 == p9(wantedRec) + 1 && done == p9(wantedRec)
  at after encodeVarintRecord#8 assert good ==> upto(prev, off(dAtA), wantedRec, p9(wantedRec))
  at after encodeVarintRecord#8 use uptoFrame(prev, elems(dAtA), off(dAtA), wantedRec, p9(wantedRec))
  at after encodeVarintRecord#8 assert good ==> upto(elems(dAtA), off(dAtA), wantedRec, p9(wantedRec))
  at after encodeVarintRecord#8 assert good ==> elems(dAtA)[off(dAtA) + p9(wantedRec)] == 0x50
  at after encodeVarintRecord#8 assert good ==> varAt(elems(dAtA), off(dAtA) + p9(wantedRec) + 1, u64(wantedRec.Merged))
  at after encodeVarintRecord#8 use fldMkV(elems(dAtA), off(dAtA) + p9(wantedRec), 0x50, wantedRec.Merged)
  at after encodeVarintRecord#8 assert good ==> fldV(elems(dAtA), off(dAtA) + p9(wantedRec), 0x50, wantedRec.Merged)
  at after encodeVarintRecord#8 use uptoStep(elems(dAtA), off(dAtA), wantedRec, p9(wantedRec), p10(wantedRec))
  at after encodeVarintRecord#8 assert good ==> $r0 == p10(wantedRec) && upto(elems(dAtA), off(dAtA), wantedRec, p10(wantedRec))
  at after encodeVarintRecord#8 set prev := elems(dAtA)
  at after encodeVarintRecord#8 set done := $r0
  at exit assert good ==> n == p10(wantedRec) && done == p10(wantedRec)
  at exit assert good ==> upto(prev, off(dAtA), wantedRec, p10(wantedRec))

fn (*Record).Marshal(m) (res, err)
  requires fitsInt(*m)
  ensures err == nil && len(res) == recSize(*m) && fresh(res)
  ensures isRec(*m, wantedRec) ==> upto(elems(res), off(res), wantedRec, len(res)) && len(res) == p10(wantedRec)

fn (*Record).Unmarshal(m, dAtA) (err)
  modifies *m, elems(m.Distribution), elems(m.MinId), elems(m.MaxId)
  loop 0
    invariant 0 <= iNdEx && iNdEx <= l
    invariant arrof(m.Distribution) == old(arrof(m.Distribution)) || fresh(m.Distribution) || arrof(m.Distribution) == 0
    invariant arrof(m.MinId) == old(arrof(m.MinId)) || fresh(m.MinId) || arrof(m.MinId) == 0
    invariant arrof(m.MaxId) == old(arrof(m.MaxId)) || fresh(m.MaxId) || arrof(m.MaxId) == 0
    decreases l - iNdEx
  loop 1
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 2
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 3
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 4
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 5
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 6
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 7
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 8
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 9
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx

