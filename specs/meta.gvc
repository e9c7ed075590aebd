package database/files/internal/meta

// base-128 varints: the number of bytes, and the bytes themselves (at an absolute position of an array)
opaque sov(v mathint) mathint = ite(v < 0x80, 1, ite(v < 0x4000, 2, ite(v < 0x200000, 3, ite(v < 0x10000000, 4, ite(v < 0x800000000, 5, ite(v < 0x40000000000, 6, ite(v < 0x2000000000000, 7, ite(v < 0x100000000000000, 8, ite(v < 0x8000000000000000, 9, 10)))))))))
lemma sovRange(v mathint)
  ensures 1 <= sov(v) && sov(v) <= 10
  trigger sov(v)
  auto
opaque vb(v mathint, p mathint) mathint = (v / p) % 128 + ite(v / p >= 128, 128, 0)
opaque varAt(a arr[byte], o mathint, v mathint) bool = a[o] == vb(v, 1)
   && (v >= 0x80 ==> a[o+1] == vb(v, 0x80))
   && (v >= 0x4000 ==> a[o+2] == vb(v, 0x4000))
   && (v >= 0x200000 ==> a[o+3] == vb(v, 0x200000))
   && (v >= 0x10000000 ==> a[o+4] == vb(v, 0x10000000))
   && (v >= 0x800000000 ==> a[o+5] == vb(v, 0x800000000))
   && (v >= 0x40000000000 ==> a[o+6] == vb(v, 0x40000000000))
   && (v >= 0x2000000000000 ==> a[o+7] == vb(v, 0x2000000000000))
   && (v >= 0x100000000000000 ==> a[o+8] == vb(v, 0x100000000000000))
   && (v >= 0x8000000000000000 ==> a[o+9] == vb(v, 0x8000000000000000))
lemma varFrame(a arr[byte], b arr[byte], o mathint, v mathint)
  requires 0 <= v && varAt(a, o, v)
  requires forall k mathint :: {b[k]} o <= k && k < o + sov(v) ==> b[k] == a[k]
  ensures varAt(b, o, v)

fn sovMeta(x) (n)
  opts reveal=sov
  ensures n == sov(x)
  loop 0
    unroll 10

// dividing by 128 again and again
lemma divChain(v mathint)
  requires 0 <= v
  ensures (v / 0x80) / 128 == v / 0x4000
  ensures (v / 0x4000) / 128 == v / 0x200000
  ensures (v / 0x200000) / 128 == v / 0x10000000
  ensures (v / 0x10000000) / 128 == v / 0x800000000
  ensures (v / 0x800000000) / 128 == v / 0x40000000000
  ensures (v / 0x40000000000) / 128 == v / 0x2000000000000
  ensures (v / 0x2000000000000) / 128 == v / 0x100000000000000
  ensures (v / 0x100000000000000) / 128 == v / 0x8000000000000000

fn encodeVarintMeta(dAtA, offset, v) (n)
  opts reveal=sov,vb,varAt
  requires 0 <= offset && offset + sov(v) <= len(dAtA)
  modifies elems(dAtA)
  ensures n == offset + sov(v)
  ensures varAt(elems(dAtA), off(dAtA) + offset, v)
  ensures forall k int :: {elems(dAtA)[k]} k < off(dAtA) + offset || k >= off(dAtA) + n ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  at entry use divChain(v)
  loop 0
    unroll 9

// the encoding: the fields that are not zero, in order
spec fsz(x mathint) mathint = ite(x != 0, 1 + sov(u64(x)), 0)
spec q0(m Metadata) mathint = 0
spec q1(m Metadata) mathint = q0(m) + fsz(m.Size_)
spec q2(m Metadata) mathint = q1(m) + fsz(m.Head)
spec q3(m Metadata) mathint = q2(m) + fsz(m.Start)
spec q4(m Metadata) mathint = q3(m) + fsz(m.End)
spec q5(m Metadata) mathint = q4(m) + fsz(m.SmallestEnd)
pred fld(a arr[byte], o mathint, tag mathint, x mathint) = x != 0 ==> a[o] == tag && varAt(a, o + 1, u64(x))
pred metaEnc(a arr[byte], o mathint, m Metadata) = fld(a, o + q0(m), 0x8, m.Size_) && fld(a, o + q1(m), 0x10, m.Head) && fld(a, o + q2(m), 0x18, m.Start) && fld(a, o + q3(m), 0x20, m.End) && fld(a, o + q4(m), 0x28, m.SmallestEnd)

fn (*Metadata).Size(m) (n)
  ensures n == q5(*m) && 0 <= n && n <= 55

fn (*Metadata).MarshalTo(m, dAtA) (n, err)
  requires q5(*m) <= len(dAtA)
  modifies elems(dAtA)
  ensures err == nil && n == q5(*m)
  ensures metaEnc(elems(dAtA), off(dAtA), *m)
  ensures forall k int :: {elems(dAtA)[k]} k < off(dAtA) || k >= off(dAtA) + n ==> elems(dAtA)[k] == old(elems(dAtA)[k])
  ghost prev arr[byte] = elems(dAtA)
  at after encodeVarintMeta use varFrame(prev, elems(dAtA), off(dAtA) + q0(*m) + 1, u64(m.Size_))
  at after encodeVarintMeta use varFrame(prev, elems(dAtA), off(dAtA) + q1(*m) + 1, u64(m.Head))
  at after encodeVarintMeta use varFrame(prev, elems(dAtA), off(dAtA) + q2(*m) + 1, u64(m.Start))
  at after encodeVarintMeta use varFrame(prev, elems(dAtA), off(dAtA) + q3(*m) + 1, u64(m.End))
  at after encodeVarintMeta hint q1(*m) <= $r0 ==> fld(elems(dAtA), off(dAtA) + q0(*m), 0x8, m.Size_)
  at after encodeVarintMeta hint q2(*m) <= $r0 ==> fld(elems(dAtA), off(dAtA) + q1(*m), 0x10, m.Head)
  at after encodeVarintMeta hint q3(*m) <= $r0 ==> fld(elems(dAtA), off(dAtA) + q2(*m), 0x18, m.Start)
  at after encodeVarintMeta hint q4(*m) <= $r0 ==> fld(elems(dAtA), off(dAtA) + q3(*m), 0x20, m.End)
  at after encodeVarintMeta hint q5(*m) <= $r0 ==> fld(elems(dAtA), off(dAtA) + q4(*m), 0x28, m.SmallestEnd)
  at after encodeVarintMeta set prev := elems(dAtA)
  at exit hint q1(*m) <= n ==> fld(elems(dAtA), off(dAtA) + q0(*m), 0x8, m.Size_)
  at exit hint q2(*m) <= n ==> fld(elems(dAtA), off(dAtA) + q1(*m), 0x10, m.Head)
  at exit hint q3(*m) <= n ==> fld(elems(dAtA), off(dAtA) + q2(*m), 0x18, m.Start)
  at exit hint q4(*m) <= n ==> fld(elems(dAtA), off(dAtA) + q3(*m), 0x20, m.End)
  at exit hint q5(*m) <= n ==> fld(elems(dAtA), off(dAtA) + q4(*m), 0x28, m.SmallestEnd)

fn (*Metadata).Marshal(m) (res, err)
  ensures err == nil && len(res) == q5(*m) && metaEnc(elems(res), off(res), *m) && fresh(res)

fn (*Metadata).Reset(m)
  modifies *m
  ensures m.Size_ == 0 && m.Head == 0 && m.Start == 0 && m.End == 0 && m.SmallestEnd == 0

// reading: nothing is read out of bounds, every round reads at least one byte, and no element is longer than what is left
fn skipMeta(dAtA) (n, err)
  requires len(dAtA) > 0
  ensures err == nil ==> n > 0
  loop 0
    invariant 0 <= iNdEx && iNdEx <= len(dAtA) + MaxInt
    invariant depth >= 0 && depth <= iNdEx
    invariant iNdEx > 0 ==> depth > 0
    decreases len(dAtA) - iNdEx
  loop 1
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 2
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  loop 3
    invariant pre(iNdEx) <= iNdEx && iNdEx <= l
    decreases l - iNdEx
  at postloop 1 hint iNdEx > 0
  at postloop 3 hint iNdEx > 0

// reading back: while the bytes are the encoding of some metadata (any one: wanted), each field is read when it is passed
ghostvar wanted Metadata
// reading the bytes of a varint: all but the last have the top bit set, and the low seven bits of each add to what the
// bytes before it gave
opaque low(v mathint, p mathint) mathint = v % p
lemma varLow(v mathint)
  requires 0 <= v && v < 0x10000000000000000
  ensures 0 <= low(v, 0x80) && low(v, 0x80) < 0x80
  ensures 0 <= low(v, 0x4000) && low(v, 0x4000) < 0x4000
  ensures 0 <= low(v, 0x200000) && low(v, 0x200000) < 0x200000
  ensures 0 <= low(v, 0x10000000) && low(v, 0x10000000) < 0x10000000
  ensures 0 <= low(v, 0x800000000) && low(v, 0x800000000) < 0x800000000
  ensures 0 <= low(v, 0x40000000000) && low(v, 0x40000000000) < 0x40000000000
  ensures 0 <= low(v, 0x2000000000000) && low(v, 0x2000000000000) < 0x2000000000000
  ensures 0 <= low(v, 0x100000000000000) && low(v, 0x100000000000000) < 0x100000000000000
  ensures 0 <= low(v, 0x8000000000000000) && low(v, 0x8000000000000000) < 0x8000000000000000
  ensures low(v, 1) == 0
  ensures sov(v) == 1 ==> low(v, 0x80) == v
  ensures sov(v) == 2 ==> low(v, 0x4000) == v
  ensures sov(v) == 3 ==> low(v, 0x200000) == v
  ensures sov(v) == 4 ==> low(v, 0x10000000) == v
  ensures sov(v) == 5 ==> low(v, 0x800000000) == v
  ensures sov(v) == 6 ==> low(v, 0x40000000000) == v
  ensures sov(v) == 7 ==> low(v, 0x2000000000000) == v
  ensures sov(v) == 8 ==> low(v, 0x100000000000000) == v
  ensures sov(v) == 9 ==> low(v, 0x8000000000000000) == v
  ensures sov(v) == 10 ==> low(v, 0x400000000000000000) == v
lemma varRead(a arr[byte], o mathint, v mathint)
  requires 0 <= v && v < 0x10000000000000000 && varAt(a, o, v)
  using divChain(v)
  ensures 0 < sov(v) ==> low(v, 0x80) == low(v, 0x1) + (a[o+0] % 128) * 0x1
  ensures 1 < sov(v) ==> low(v, 0x4000) == low(v, 0x80) + (a[o+1] % 128) * 0x80
  ensures 2 < sov(v) ==> low(v, 0x200000) == low(v, 0x4000) + (a[o+2] % 128) * 0x4000
  ensures 3 < sov(v) ==> low(v, 0x10000000) == low(v, 0x200000) + (a[o+3] % 128) * 0x200000
  ensures 4 < sov(v) ==> low(v, 0x800000000) == low(v, 0x10000000) + (a[o+4] % 128) * 0x10000000
  ensures 5 < sov(v) ==> low(v, 0x40000000000) == low(v, 0x800000000) + (a[o+5] % 128) * 0x800000000
  ensures 6 < sov(v) ==> low(v, 0x2000000000000) == low(v, 0x40000000000) + (a[o+6] % 128) * 0x40000000000
  ensures 7 < sov(v) ==> low(v, 0x100000000000000) == low(v, 0x2000000000000) + (a[o+7] % 128) * 0x2000000000000
  ensures 8 < sov(v) ==> low(v, 0x8000000000000000) == low(v, 0x100000000000000) + (a[o+8] % 128) * 0x100000000000000
  ensures 9 < sov(v) ==> low(v, 0x400000000000000000) == low(v, 0x8000000000000000) + (a[o+9] % 128) * 0x8000000000000000
  ensures 0 <= a[o+0] && a[o+0] <= 255 ==> (0 < sov(v) ==> (a[o+0] < 128) == (sov(v) == 1))
  ensures 0 <= a[o+1] && a[o+1] <= 255 ==> (1 < sov(v) ==> (a[o+1] < 128) == (sov(v) == 2))
  ensures 0 <= a[o+2] && a[o+2] <= 255 ==> (2 < sov(v) ==> (a[o+2] < 128) == (sov(v) == 3))
  ensures 0 <= a[o+3] && a[o+3] <= 255 ==> (3 < sov(v) ==> (a[o+3] < 128) == (sov(v) == 4))
  ensures 0 <= a[o+4] && a[o+4] <= 255 ==> (4 < sov(v) ==> (a[o+4] < 128) == (sov(v) == 5))
  ensures 0 <= a[o+5] && a[o+5] <= 255 ==> (5 < sov(v) ==> (a[o+5] < 128) == (sov(v) == 6))
  ensures 0 <= a[o+6] && a[o+6] <= 255 ==> (6 < sov(v) ==> (a[o+6] < 128) == (sov(v) == 7))
  ensures 0 <= a[o+7] && a[o+7] <= 255 ==> (7 < sov(v) ==> (a[o+7] < 128) == (sov(v) == 8))
  ensures 0 <= a[o+8] && a[o+8] <= 255 ==> (8 < sov(v) ==> (a[o+8] < 128) == (sov(v) == 9))
  ensures 0 <= a[o+9] && a[o+9] <= 255 ==> (9 < sov(v) ==> (a[o+9] < 128) == (sov(v) == 10))
  ensures sov(v) == 10 ==> a[o+9] == 1
spec pw(s mathint) mathint = ite(s == 0, 0x1, ite(s == 7, 0x80, ite(s == 14, 0x4000, ite(s == 21, 0x200000, ite(s == 28, 0x10000000, ite(s == 35, 0x800000000, ite(s == 42, 0x40000000000, ite(s == 49, 0x2000000000000, ite(s == 56, 0x100000000000000, 0x8000000000000000)))))))))

pred encoded(b []byte) = -0x8000000000000000 <= wanted.Size_ && wanted.Size_ <= 0x7fffffffffffffff && -0x8000000000000000 <= wanted.Head && wanted.Head <= 0x7fffffffffffffff && -0x8000000000000000 <= wanted.Start && wanted.Start <= 0x7fffffffffffffff && -0x8000000000000000 <= wanted.End && wanted.End <= 0x7fffffffffffffff && -0x8000000000000000 <= wanted.SmallestEnd && wanted.SmallestEnd <= 0x7fffffffffffffff && len(b) == q5(wanted) && metaEnc(elems(b), off(b), wanted)
pred upTo(m Metadata, i mathint) = m.Size_ == ite(q1(wanted) <= i, wanted.Size_, 0) && m.Head == ite(q2(wanted) <= i, wanted.Head, 0) && m.Start == ite(q3(wanted) <= i, wanted.Start, 0) && m.End == ite(q4(wanted) <= i, wanted.End, 0) && m.SmallestEnd == ite(q5(wanted) <= i, wanted.SmallestEnd, 0)
pred edge(i mathint) = i == q0(wanted) || i == q1(wanted) || i == q2(wanted) || i == q3(wanted) || i == q4(wanted) || i == q5(wanted)

pred isWanted(m Metadata) = m == wanted
lemma metaFrame(a arr[byte], b arr[byte], o mathint, m Metadata)
  requires forall k mathint :: {b[k]} o <= k && k < o + q5(m) ==> b[k] == a[k]
  using varFrame(a, b, o + q0(m) + 1, u64(m.Size_))
  using varFrame(a, b, o + q1(m) + 1, u64(m.Head))
  using varFrame(a, b, o + q2(m) + 1, u64(m.Start))
  using varFrame(a, b, o + q3(m) + 1, u64(m.End))
  using varFrame(a, b, o + q4(m) + 1, u64(m.SmallestEnd))
  ensures metaEnc(a, o, m) ==> metaEnc(b, o, m)
fn (*Metadata).Unmarshal(m, dAtA) (err)
  modifies *m
  ghost good bool = encoded(dAtA) && m.Size_ == 0 && m.Head == 0 && m.Start == 0 && m.End == 0 && m.SmallestEnd == 0
  ensures encoded(dAtA) && old(m.Size_ == 0 && m.Head == 0 && m.Start == 0 && m.End == 0 && m.SmallestEnd == 0) ==> err == nil && *m == wanted
  loop 0
    invariant 0 <= iNdEx && iNdEx <= l
    invariant good ==> edge(iNdEx) && upTo(*m, iNdEx)
    decreases l - iNdEx
  at loop 0 hint good ==> iNdEx == q0(wanted) && wanted.Size_ != 0 && dAtA[iNdEx] == 8 || iNdEx == q1(wanted) && wanted.Head != 0 && dAtA[iNdEx] == 16 || iNdEx == q2(wanted) && wanted.Start != 0 && dAtA[iNdEx] == 24 || iNdEx == q3(wanted) && wanted.End != 0 && dAtA[iNdEx] == 32 || iNdEx == q4(wanted) && wanted.SmallestEnd != 0 && dAtA[iNdEx] == 40
  at loop 1 hint good ==> shift == 0
  loop 1
    unroll 11
  at postloop 1 hint good ==> iNdEx == preIndex + 1 && wire == dAtA[preIndex]
  at preloop 2 hint good ==> preIndex == q0(wanted) && wanted.Size_ != 0
  at preloop 2 use varLow(u64(wanted.Size_))
  at preloop 2 use varRead(elems(dAtA), off(dAtA) + preIndex + 1, u64(wanted.Size_))
  at loop 2 hint good ==> iNdEx == preIndex + 1 + shift / 7 && shift / 7 < sov(u64(wanted.Size_))
  at loop 2 hint good ==> m.Size_ == low(u64(wanted.Size_), pw(shift))
  loop 2
    unroll 11
  at postloop 2 hint good ==> iNdEx == preIndex + 1 + sov(u64(wanted.Size_))
  at break 2 hint good ==> m.Size_ == wanted.Size_
  at postloop 2 hint good ==> m.Size_ == wanted.Size_
  at preloop 3 hint good ==> preIndex == q1(wanted) && wanted.Head != 0
  at preloop 3 use varLow(u64(wanted.Head))
  at preloop 3 use varRead(elems(dAtA), off(dAtA) + preIndex + 1, u64(wanted.Head))
  at loop 3 hint good ==> iNdEx == preIndex + 1 + shift / 7 && shift / 7 < sov(u64(wanted.Head))
  at loop 3 hint good ==> m.Head == low(u64(wanted.Head), pw(shift))
  loop 3
    unroll 11
  at postloop 3 hint good ==> iNdEx == preIndex + 1 + sov(u64(wanted.Head))
  at break 3 hint good ==> m.Head == wanted.Head
  at postloop 3 hint good ==> m.Head == wanted.Head
  at preloop 4 hint good ==> preIndex == q2(wanted) && wanted.Start != 0
  at preloop 4 use varLow(u64(wanted.Start))
  at preloop 4 use varRead(elems(dAtA), off(dAtA) + preIndex + 1, u64(wanted.Start))
  at loop 4 hint good ==> iNdEx == preIndex + 1 + shift / 7 && shift / 7 < sov(u64(wanted.Start))
  at loop 4 hint good ==> m.Start == low(u64(wanted.Start), pw(shift))
  loop 4
    unroll 11
  at postloop 4 hint good ==> iNdEx == preIndex + 1 + sov(u64(wanted.Start))
  at break 4 hint good ==> m.Start == wanted.Start
  at postloop 4 hint good ==> m.Start == wanted.Start
  at preloop 5 hint good ==> preIndex == q3(wanted) && wanted.End != 0
  at preloop 5 use varLow(u64(wanted.End))
  at preloop 5 use varRead(elems(dAtA), off(dAtA) + preIndex + 1, u64(wanted.End))
  at loop 5 hint good ==> iNdEx == preIndex + 1 + shift / 7 && shift / 7 < sov(u64(wanted.End))
  at loop 5 hint good ==> m.End == low(u64(wanted.End), pw(shift))
  loop 5
    unroll 11
  at postloop 5 hint good ==> iNdEx == preIndex + 1 + sov(u64(wanted.End))
  at break 5 hint good ==> m.End == wanted.End
  at postloop 5 hint good ==> m.End == wanted.End
  at preloop 6 hint good ==> preIndex == q4(wanted) && wanted.SmallestEnd != 0
  at preloop 6 use varLow(u64(wanted.SmallestEnd))
  at preloop 6 use varRead(elems(dAtA), off(dAtA) + preIndex + 1, u64(wanted.SmallestEnd))
  at loop 6 hint good ==> iNdEx == preIndex + 1 + shift / 7 && shift / 7 < sov(u64(wanted.SmallestEnd))
  at loop 6 hint good ==> m.SmallestEnd == low(u64(wanted.SmallestEnd), pw(shift))
  loop 6
    unroll 11
  at postloop 6 hint good ==> iNdEx == preIndex + 1 + sov(u64(wanted.SmallestEnd))
  at break 6 hint good ==> m.SmallestEnd == wanted.SmallestEnd
  at postloop 6 hint good ==> m.SmallestEnd == wanted.SmallestEnd

// the round trip (verifRoundTrip is verification code, in the overlay): every value of every field
fn verifRoundTrip(m, out) (err)
  requires m != nil && out != nil && m != out
  modifies *out
  at entry set wanted := *m
  ensures err == nil && *out == old(*m)
