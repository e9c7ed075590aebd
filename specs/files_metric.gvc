package database/files

spec withSlash(d string) string = ite(len(d) > 0 && d[len(d)-1] != '/', d + chr('/'), d)

fn metricToPath(buf, metric, num) (r)
  opts strfacts
  using subCatR
  using subCatL
  modifies elems(buf)
  ghost D string = ""
  at after metricToDir set D := sub(str($r0), len(buf), len($r0))
  ensures len(metric) > 0 ==> str(r) == (((old(str(buf)) + sub(str(r), len(buf), len(r) - 6 - len(itoa(num)))) + chr('/')) + itoa(num)) + ".data"
  ensures len(metric) > 0 ==> cleanDir(sub(str(r), len(buf), len(r) - 6 - len(itoa(num)))) && decR(sub(str(r), len(buf), len(r) - 6 - len(itoa(num))), "", false, false) == metric
  at exit hint len(metric) > 0 ==> str(r) == (((old(str(buf)) + D) + chr('/')) + itoa(num)) + ".data"
  at exit hint len(metric) > 0 ==> sub(str(r), len(buf), len(r) - 6 - len(itoa(num))) == D

fn (*filenameBuf).metricFilenameAt(fb, dir, index) (r)
  opts strfacts
  requires len(dir) <= 0x3fffffffffff
  modifies *fb, elems(*fb)
  ensures r == (withSlash(dir) + itoa(index)) + ".data"
  ensures fresh(*fb) || arrof(*fb) == old(arrof(*fb))

// the data files of a metric
opaque fname(d string, k mathint) string = (withSlash(d) + itoa(k)) + ".data"
pred wfMet(m *metric) = m.opts.fch != nil && m.opts.fch.ch != nil && m.interned != nil && len(m.dir) <= 0x3fffffffffff && (forall k int :: {has(m.interned, k)} has(m.interned, k) ==> m.interned[k] == fname(m.dir, k))
pred numsOK(m *metric) = 0 - 0x3fffffffffffffff <= m.first && m.first <= 0x3fffffffffffffff && 0 - 0x3fffffffffffffff <= m.last && m.last <= 0x3fffffffffffffff

fn (*metric).filenameAt(m, index) (r)
  opts reveal=fname
  requires wfMet(m)
  modifies m.fb, elems(m.fb), map(m.interned)
  ensures r == fname(m.dir, index) && wfMet(m)
  ensures fresh(m.fb) || arrof(m.fb) == old(arrof(m.fb))

fn (*metric).acquireLast(m, ctx) (f, head, err)
  requires wfMet(m) && numsOK(m)
  modifies m.last, m.fb, allelems(m.fb), map(m.interned), mine, openedAs, m.opts.fch.toks, allmaps(m.opts.fch.toks), m.opts.fch.ch.tok, m.opts.fch.ch.order, m.opts.fch.ch.pcg.*, map(m.opts.fch.ch.handles), allelems(m.opts.fch.ch.order)
  traces os.Remove as rm
  // a file is taken out of the cache before it is removed, so no handle of it is left
  ghost gone string = ""
  at after fileCache.evictFile set gone := $0
  at after fileCache.releaseFile set gone := ""
  at before os.Remove assert uncached: gone == $0
  at before os.Remove assert empty: $0 == fname(m.dir, m.last) && openedAs[f.data] == $0 && head == f.cap - 1 && m.last > m.first
  loop 0
    invariant wfMet(m) && m.last <= old(m.last) && mine == old(mine) && noneLost()
    invariant m.last >= m.first || m.last == old(m.last)
    invariant ncalls(rm) == old(m.last) - m.last
    invariant forall i int :: {arg(rm, 0, i)} 0 <= i && i < ncalls(rm) ==> arg(rm, 0, i) == fname(m.dir, old(m.last) - i)
    decreases m.last - m.first
  ensures wfMet(m) && m.last <= old(m.last) && (m.last < old(m.last) ==> m.last >= m.first) && noneLost()
  ensures err != nil ==> mine == old(mine)
  ensures err == nil ==> m.first <= m.last && old(mine[f.data]) == 0 && owned(f) && openedAs[f.data] == fname(m.dir, m.last) && mine == stored(old(mine), f.data, f.len)
  ensures err == nil ==> -1 <= head && head < f.cap && (head == -1 || !occ(f, head)) && (head == f.cap - 1 || occ(f, head + 1))
  ensures err == nil && m.first < m.last ==> head < f.cap - 1
  ensures ncalls(rm) == old(m.last) - m.last
  ensures forall i int :: {arg(rm, 0, i)} 0 <= i && i < ncalls(rm) ==> arg(rm, 0, i) == fname(m.dir, old(m.last) - i)

// the i-th piece of a value that is not the last one, and the slot it went to
opaque piece(rec record, pos mathint, i mathint, base mathint, start int64, end int64, d []byte, c mathint) bool = rec.version == 1 && rec.start == start && rec.end == end && arrof(rec.data) == arrof(d) && rec.size == c && rec.kind == ite(i == 0, 3, 4) && off(rec.data) == off(d) + mul(i, c) && pos == base + i
lemma pieceIntro(rec record, pos mathint, i mathint, base mathint, start int64, end int64, d []byte, c mathint)
  requires rec.version == 1 && rec.start == start && rec.end == end && arrof(rec.data) == arrof(d) && rec.size == c && rec.kind == ite(i == 0, 3, 4) && off(rec.data) == off(d) + mul(i, c) && pos == base + i
  ensures piece(rec, pos, i, base, start, end, d, c)
lemma pieceElim(rec record, pos mathint, i mathint, base mathint, start int64, end int64, d []byte, c mathint)
  requires piece(rec, pos, i, base, start, end, d, c)
  trigger piece(rec, pos, i, base, start, end, d, c)
  auto
  ensures rec.version == 1 && rec.start == start && rec.end == end && arrof(rec.data) == arrof(d) && rec.size == c && rec.kind == ite(i == 0, 3, 4) && off(rec.data) == off(d) + mul(i, c) && pos == base + i

pred notMapped(b []byte) = forall d uintptr, n int :: {mapped(d, n)} arrof(b) != arrof(mapped(d, n))
fn (*metric).Write(m, ctx, start, end, data) (ok, err)
  requires wfMet(m) && numsOK(m) && notMapped(data) && len(data) <= 0x7fffffffffff
  requires 0 <= m.opts.fch.opts.Cap && m.opts.fch.opts.Cap <= 0x7fffffff
  modifies m.first, m.last, m.fb, allelems(m.fb), map(m.interned), mine, openedAs, m.opts.fch.toks, allmaps(m.opts.fch.toks), m.opts.fch.ch.tok, m.opts.fch.ch.order, m.opts.fch.ch.pcg.*, map(m.opts.fch.ch.handles), allelems(m.opts.fch.ch.order)
  traces os.Remove as rm, file.SetRecord as set, file.SetMetadata as setm, metric.acquireLast as last, fileCache.acquireFile as fresh1
  ghost gone string = ""
  at after fileCache.evictFile set gone := $0
  at after fileCache.releaseFile set gone := ""
  at before os.Remove assert uncached: gone == $0
  ghost had bool = false
  ghost lastEnd mathint = 0
  ghost lastErr bool = false
  ghost slots mathint = 0
  at after file.HasRecord set had := $r0
  at after file.Record set lastEnd := $r0.end
  at after file.Record set lastErr := $r1 != nil
  at after numRecords set slots := $r0
  // nothing is left mapped, whatever happens
  ensures mine == old(mine)
  // refused: the newest value does not end before this one; nothing is written or removed
  ensures err == nil && !ok ==> had && lastEnd >= end && ncalls(set) == 0 && ncalls(setm) == 0 && ncalls(rm) == 0 && ncalls(fresh1) == 0
  ensures ncalls(set) > 0 || ncalls(rm) > 0 || ncalls(fresh1) > 0 ==> !had || !lastErr && lastEnd < end
  // removed: only the oldest file, only when there are more than allowed, and only to make room
  ensures ncalls(rm) <= 1
  ensures ncalls(rm) == 1 ==> arg(rm, 0, 0) == fname(m.dir, old(m.first)) && m.first == old(m.first) + 1 && m.opts.max > 0 && m.last - 1 - old(m.first) >= m.opts.max && ncalls(fresh1) == 1
  ensures ncalls(rm) == 0 ==> m.first == old(m.first)
  ensures ncalls(fresh1) <= 1 && (ncalls(fresh1) == 1 ==> arg(fresh1, 1, 0) == fname(m.dir, m.last))
  // written: all pieces, in the consecutive slots right before the newest value, with the rest of the file untouched
  ghost d0 []byte = data
  ghost base mathint = 0
  ghost chunk mathint = 0
  at before iterateRecords set base := head
  at before iterateRecords set chunk := f.size - 24
  loop 0
    invariant goodSize(size) && slotsFor(slots, len(d0), size)
    invariant ncalls(set) >= 0 && ncalls(setm) == 0 && ok == false
    invariant 0 <= off(data) - off(d0) && off(data) - off(d0) == mul(ncalls(set), size - 24) && off(data) + len(data) == off(d0) + len(d0) && arrof(data) == arrof(d0)
    invariant ncalls(set) > 0 ==> len(data) > 0
    invariant complete == (len(d0) <= size - 24) && (complete ==> ncalls(set) == 0)
    invariant kind == ite(ncalls(set) == 0, 3, 4)
    invariant head == base + ncalls(set)
    invariant forall i int :: {recvof(set, i)} 0 <= i && i < ncalls(set) ==> recvof(set, i) == f
    invariant forall i int :: {res(set, 0, i)} 0 <= i && i < ncalls(set) ==> res(set, 0, i) == nil
    invariant forall i int :: {arg(set, 2, i)} {arg(set, 1, i)} 0 <= i && i < ncalls(set) ==> piece(arg(set, 2, i), arg(set, 1, i), i, base, start, end, d0, size - 24)
    decreases len(data)
  at loopend 0 hint res(set, 0, ncalls(set) - 1) == nil
  at loopend 0 hint recvof(set, ncalls(set) - 1) == f
  at loop 0 use mulDef(ncalls(set), size - 24)
  at postloop 0 use slotsUniq(ncalls(set), slots, size - 24, len(d0), len(data))
  at postloop 0 hint ncalls(set) + 1 == slots
  at preloop 0 use mulDef(0, size - 24)
  at loopend 0 hint off(arg(set, 2, ncalls(set) - 1).data) == off(d0) + mul(ncalls(set) - 1, size - 24)
  at loopend 0 use pieceIntro(arg(set, 2, ncalls(set) - 1), arg(set, 1, ncalls(set) - 1), ncalls(set) - 1, base, start, end, d0, size - 24)
  at after iterateRecords hint $r0 == nil ==> ncalls(set) == slots
  at after iterateRecords hint $r0 == nil ==> off(arg(set, 2, slots - 1).data) == off(data) + mul(slots - 1, chunk)
  ensures ok ==> ncalls(set) == slots && ncalls(setm) <= 1
  ensures ok ==> forall i int :: {arg(set, 1, i)} 0 <= i && i < ncalls(set) ==> arg(set, 1, i) == base + i && res(set, 0, i) == nil
  ensures ok ==> forall i int :: {arg(set, 2, i)} 0 <= i && i < ncalls(set) ==> arg(set, 2, i).start == start && arg(set, 2, i).end == end && arg(set, 2, i).version == 1 && arg(set, 2, i).kind == ite(ncalls(set) == 1, 2, ite(i == 0, 3, ite(i == ncalls(set) - 1, 5, 4)))
  ensures ok ==> forall i int :: {arg(set, 2, i)} 0 <= i && i < ncalls(set) - 1 ==> arrof(arg(set, 2, i).data) == arrof(data) && off(arg(set, 2, i).data) == off(data) + mul(i, chunk) && arg(set, 2, i).size == chunk
  ensures ok ==> arrof(arg(set, 2, slots - 1).data) == arrof(data) && off(arg(set, 2, slots - 1).data) + arg(set, 2, slots - 1).size == off(data) + len(data) && off(arg(set, 2, slots - 1).data) == off(data) + mul(slots - 1, chunk)
  ensures ok && err == nil ==> ncalls(setm) == 1 && arg(setm, 1, 0).Head == base - 1 && arg(setm, 1, 0).End == end

// what a reader has seen of the value it is at: nothing (0), a whole value (1),
// the beginning of one (2), or something that is not a value before the end time (9)
spec group(st mathint, rec record, failed bool, end int64) mathint = ite(failed, 9, ite(st == 0, ite(rec.end >= end, 9, ite(rec.kind == 2, 1, ite(rec.kind == 3, 2, 9))), ite(rec.kind == 4, 2, ite(rec.kind == 5, 1, 9))))

fn (*metric).Read(m, ctx, end, buf, cb) (err)
  opts strfacts fncontract
  requires ctx != nil && wfMet(m) && numsOK(m)
  modifies m.fb, allelems(m.fb), map(m.interned), mine, openedAs, elems(buf), m.opts.fch.toks, allmaps(m.opts.fch.toks), m.opts.fch.ch.tok, m.opts.fch.ch.order, m.opts.fch.ch.pcg.*, map(m.opts.fch.ch.handles), allelems(m.opts.fch.ch.order)
  traces fileCache.acquireFile as acq
  ghost st mathint = 0
  ghost acc string = ""
  ghost wasS mathint = 0
  ghost wasE mathint = 0
  ghost pos mathint = 0
  ghost calls mathint = 0
  ghost skip bool = false
  ghost whole bool = false
  // every file is opened, newest first, and none is made
  ensures forall i int :: {arg(acq, 1, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 1, i) == fname(m.dir, m.last - i) && arg(acq, 2, i)
  ensures err == nil && (ncalls(cb) == 0 || res(cb, 0, ncalls(cb) - 1)) ==> ncalls(acq) == ite(m.last < m.first, 0, m.last - m.first + 1)
  // every slot from the newest record on is read
  at after getHeadPointer set pos := $r0 + 1
  at after getHeadPointer use mulMono(24, f.size, f.cap + 1)
  at before file.Record assert seq: $1 == pos
  at after file.Record set pos := $1 + 1
  at after file.Record set st := group(st, $r0, $r1 != nil, end)
  at after file.Record set wasS := $r0.start
  at after file.Record set wasE := $r0.end
  at postloop 1 assert all: pos >= f.cap
  at loop 0 set skip := false
  at loop 0 set whole := false
  at after file.Metadata set skip := $r0.SmallestEnd != 0 && $r0.SmallestEnd >= end
  at postloop 1 set whole := true
  at loopend 0 assert left: whole || skip
  // every value is passed on once, whole
  at loop 1 set st := 0
  at loop 1 set acc := ""
  at loop 1 set calls := ncalls(cb)
  at after file.Record set acc := acc + str($r0.data)
  at before cb assert value: st == 1 && $1 == wasS && $2 == wasE && str($3) == acc
  at loopend 1 assert seq: head == pos || st == 9 && head == pos - 1
  at loopend 1 set pos := head
  at after Context.Err assume $r0 != nil
  at loopend 1 assert passed: ncalls(cb) == calls + ite(st == 1, 1, 0)
  // the callback is obeyed
  ensures forall i int :: {res(cb, 0, i)} {res(cb, 1, i)} 0 <= i && i < ncalls(cb) - 1 ==> res(cb, 0, i) && res(cb, 1, i) == nil
  ensures ncalls(cb) > 0 && res(cb, 1, ncalls(cb) - 1) != nil ==> err == res(cb, 1, ncalls(cb) - 1)
  ensures mine == old(mine)
  loop 0
    invariant wfMet(m) && mine == old(mine) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant num <= m.last && (m.last >= m.first ==> num >= m.first - 1) && (m.last < m.first ==> num == m.last) && ncalls(acq) == m.last - num
    invariant forall i int :: {arg(acq, 1, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 1, i) == fname(m.dir, m.last - i)
    invariant forall i int :: {arg(acq, 2, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 2, i)
    invariant forall i int :: {res(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> res(cb, 0, i)
    invariant forall i int :: {res(cb, 1, i)} 0 <= i && i < ncalls(cb) ==> res(cb, 1, i) == nil
    decreases num - m.first + 1
  loop 1
    invariant wfMet(m) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant owned(f) && openedAs[f.data] == path && mine == stored(old(mine), f.data, f.len) && old(mine[f.data]) == 0
    invariant ncalls(acq) == m.last - num + 1
    invariant 0 <= head && head == pos && head <= f.cap + 1
    invariant capacity == f.cap
    invariant forall i int :: {arg(acq, 1, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 1, i) == fname(m.dir, m.last - i)
    invariant forall i int :: {arg(acq, 2, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 2, i)
    invariant forall i int :: {res(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> res(cb, 0, i)
    invariant forall i int :: {res(cb, 1, i)} 0 <= i && i < ncalls(cb) ==> res(cb, 1, i) == nil
    decreases f.cap + 1 - head
  loop 2
    invariant wfMet(m) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant owned(f) && openedAs[f.data] == path && mine == stored(old(mine), f.data, f.len) && old(mine[f.data]) == 0
    invariant st == 2 && str(buf) == acc && head == pos && 0 <= head && head <= f.cap
    invariant ncalls(cb) == calls && ncalls(acq) == m.last - num + 1
    invariant forall i int :: {arg(acq, 1, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 1, i) == fname(m.dir, m.last - i)
    invariant forall i int :: {arg(acq, 2, i)} 0 <= i && i < ncalls(acq) ==> arg(acq, 2, i)
    decreases f.cap + 1 - head
