package database/files

// what the bytes of a record mean
spec rsize(buf []byte) mathint = sbe16(buf, 18)
spec crcOf(buf []byte, n int) mathint = crcUpd(crcUpd(0, castTable, str(buf[0:20])), castTable, str(buf[24:24+n]))
pred validRec(buf []byte) = len(buf) >= 24 && i8(buf[0]) == 1 && len(buf) >= 24 + rsize(buf) && sbe32(buf, 20) == crcOf(buf, rsize(buf))

fn (record).Size(r) (n)
  ensures n == 24 + r.size

fn (*record).Copy(r, buf)
  modifies r.data, elems(buf)
  requires arrof(buf) != arrof(r.data)
  ensures len(r.data) == old(len(r.data))
  ensures str(r.data) == old(str(r.data))

fn (record).MarshalHeader(r, buf) (res)
  requires r.size <= len(r.data)
  requires r.size == 0 || arrof(r.data) != arrof(buf) || off(buf) + 24 <= off(r.data)
  modifies elems(buf)
  ensures len(res) == 24 && cap(res) >= 24 + r.size
  ensures old(cap(buf)) >= 24 + r.size ==> arrof(res) == arrof(buf) && off(res) == off(buf) && cap(res) == cap(buf)
  ensures old(cap(buf)) < 24 + r.size ==> fresh(res)
  ensures res[0] == u8(r.version) && res[1] == u8(r.kind)
  ensures sbe64(res, 2) == u64(r.start) && sbe64(res, 10) == u64(r.end) && sbe16(res, 18) == r.size
  ensures sbe32(res, 20) == crcUpd(crcUpd(0, castTable, str(res[0:20])), castTable, old(str(r.data[0:r.size])))
  ensures forall k int :: {elems(buf)[k]} k < off(buf) || k >= off(buf) + 24 || old(cap(buf)) < 24 + r.size ==> elems(buf)[k] == old(elems(buf)[k])

fn parse(buf) (out, err)
  ensures (err == nil) == validRec(buf)
  ensures err == nil ==> out.version == 1 && out.kind == i8(buf[1]) && out.start == i64(sbe64(buf, 2)) && out.end == i64(sbe64(buf, 10)) && out.size == rsize(buf)
  ensures err == nil ==> arrof(out.data) == arrof(buf) && off(out.data) == off(buf) + 24 && len(out.data) == out.size

fn (record).Marshal(r, buf) (res)
  requires r.size <= len(r.data)
  requires r.size == 0 || arrof(r.data) != arrof(buf) || off(buf) + 24 + r.size <= off(r.data)
  modifies elems(buf)
  ensures len(res) == 24 + r.size
  ensures old(cap(buf)) >= 24 + r.size ==> arrof(res) == arrof(buf) && off(res) == off(buf)
  ensures old(cap(buf)) < 24 + r.size ==> fresh(res)
  ensures i8(res[0]) == r.version && i8(res[1]) == r.kind && i64(sbe64(res, 2)) == r.start && i64(sbe64(res, 10)) == r.end && rsize(res) == r.size
  ensures r.version == 1 ==> validRec(res)
  ensures str(res[24:24+r.size]) == old(str(r.data[0:r.size]))
  ensures forall k int :: {elems(buf)[k]} k < off(buf) || k >= off(buf) + 24 + r.size || old(cap(buf)) < 24 + r.size ==> elems(buf)[k] == old(elems(buf)[k])
  at exit hint rsize(res) == r.size && str(res[24:24+r.size]) == old(str(r.data[0:r.size]))
  ghost h0 string = ""
  ghost c0 mathint = 0
  at after MarshalHeader set h0 := str($r0[0:20])
  at after MarshalHeader set c0 := sbe32($r0, 20)
  at after MarshalHeader hint c0 == crcUpd(crcUpd(0, castTable, h0), castTable, old(str(r.data[0:r.size])))
  at exit hint c0 == crcUpd(crcUpd(0, castTable, h0), castTable, old(str(r.data[0:r.size])))
  at exit hint sbe32(res, 20) == c0
  at exit hint crcOf(res, rsize(res)) == crcOf(res, r.size)

fn verifRoundTrip(r, buf) (out, err)
  requires r.size <= len(r.data) && r.version == 1
  requires r.size == 0 || arrof(r.data) != arrof(buf) || off(buf) + 24 + r.size <= off(r.data)
  modifies elems(buf)
  ensures err == nil
  ensures out.version == r.version && out.kind == r.kind && out.start == r.start && out.end == r.end && out.size == r.size && len(out.data) == r.size
  ensures str(out.data) == old(str(r.data[0:r.size]))

// every buffer this package marshals into is its own slot, never the payload
fn readRecord(buf) (out, err)
  ensures (err == nil) == validRec(buf)
  ensures err == nil ==> out.version == 1 && out.kind == i8(buf[1]) && out.start == i64(sbe64(buf, 2)) && out.end == i64(sbe64(buf, 10)) && out.size == rsize(buf)
  ensures err == nil ==> arrof(out.data) == arrof(buf) && off(out.data) == off(buf) + 24 && len(out.data) == out.size

fn writeRecord(buf, rec) (err)
  requires rec.size <= len(rec.data)
  requires rec.size == 0 || arrof(rec.data) != arrof(buf)
  modifies elems(buf)
  ensures (err == nil) == (24 + rec.size <= len(buf))
  ensures err != nil ==> elems(buf) == old(elems(buf))
  ensures err == nil ==> i8(buf[0]) == rec.version && i8(buf[1]) == rec.kind && i64(sbe64(buf, 2)) == rec.start && i64(sbe64(buf, 10)) == rec.end && rsize(buf) == rec.size
  ensures err == nil && rec.version == 1 ==> validRec(buf)
  ensures err == nil ==> str(buf[24:24+rec.size]) == old(str(rec.data[0:rec.size]))
  ensures err == nil ==> forall k int :: {elems(buf)[k]} k < off(buf) || k >= off(buf) + 24 + rec.size ==> elems(buf)[k] == old(elems(buf)[k])

// number of records and the pieces
spec chunkOf(size int) mathint = size - 24
pred goodSize(size int) = 24 < size && size - 24 <= 65535

opaque mul(a mathint, b mathint) mathint = a * b
lemma mulDef(a mathint, b mathint)
  ensures mul(a, b) == a * b && mul(a + 1, b) == mul(a, b) + b && mul(0, b) == 0
// how many slots a value of n bytes takes with slots of the given size
pred slotsFor(r mathint, n mathint, size mathint) = ite(n == 0, r == 1, r >= 1 && mul(r - 1, size - 24) < n && n <= mul(r, size - 24))
lemma slotsUniq(n mathint, s mathint, c mathint, total mathint, rem mathint)
  requires c > 0 && 0 < rem && rem <= c && n >= 0 && s >= 1 && total == mul(n, c) + rem && mul(s - 1, c) < total && total <= mul(s, c)
  ensures s == n + 1

fn numRecords(n, size) (r)
  requires 0 <= n && n <= 0x7fffffffffff0000
  ensures !goodSize(size) ==> r == 0
  ensures goodSize(size) && n == 0 ==> r == 1
  ensures goodSize(size) && n > 0 ==> r >= 1 && (r - 1) * (size - 24) < n && n <= r * (size - 24)
  ensures goodSize(size) ==> slotsFor(r, n, size)
  at exit use mulDef(r - 1, size - 24)

fn iterateRecords(start, end, data, size, fn) (err)
  ghost d0 []byte = data
  ensures !goodSize(size) ==> err != nil && ncalls(fn) == 0
  loop 0
    invariant goodSize(size)
    invariant 0 <= off(data) - off(d0) && off(data) - off(d0) == ncalls(fn) * (size - 24) && off(data) + len(data) == off(d0) + len(d0) && (ncalls(fn) > 0 ==> len(data) > 0) && arrof(data) == arrof(d0)
    invariant complete == (len(d0) <= size - 24) && (complete ==> ncalls(fn) == 0)
    invariant kind == ite(ncalls(fn) == 0, 3, 4)
    invariant forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> res(fn, 0, i) == nil && arg(fn, 0, i).version == 1 && arg(fn, 0, i).start == start && arg(fn, 0, i).end == end && arg(fn, 0, i).size == size - 24 && len(arg(fn, 0, i).data) == size - 24 && arrof(arg(fn, 0, i).data) == arrof(d0) && off(arg(fn, 0, i).data) == off(d0) + i * (size - 24) && arg(fn, 0, i).kind == ite(i == 0, 3, 4)
    decreases len(data)
  // the payloads are consecutive pieces of the data, of the announced sizes
  ensures forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> arg(fn, 0, i).version == 1 && arg(fn, 0, i).start == start && arg(fn, 0, i).end == end && len(arg(fn, 0, i).data) == arg(fn, 0, i).size && arg(fn, 0, i).size <= size - 24
  ensures forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) ==> arrof(arg(fn, 0, i).data) == arrof(data) && off(arg(fn, 0, i).data) == off(data) + i * (size - 24)
  ensures forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) - 1 ==> arg(fn, 0, i).size == size - 24 && res(fn, 0, i) == nil
  ensures goodSize(size) ==> ncalls(fn) > 0 && err == res(fn, 0, ncalls(fn) - 1)
  // kinds
  ensures forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) && len(data) <= size - 24 ==> i == 0 && arg(fn, 0, i).kind == 2
  ensures forall i int :: {arg(fn, 0, i)} 0 <= i && i < ncalls(fn) && len(data) > size - 24 ==> arg(fn, 0, i).kind == ite(i == 0, 3, ite(off(arg(fn, 0, i).data) + len(arg(fn, 0, i).data) == off(data) + len(data), 5, 4))
  // complete unless the callback stopped it; the count is numRecords
  ensures goodSize(size) && err == nil ==> (ncalls(fn) - 1) * (size - 24) + arg(fn, 0, ncalls(fn) - 1).size == len(data) && (len(data) > 0 ==> arg(fn, 0, ncalls(fn) - 1).size > 0)
