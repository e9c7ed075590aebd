package merge

extern github.com/zeebo/tdigest.(*TDigest).Merge(t, other) (err)
  requires t != nil && other != nil
  modifies tdgen
  ensures forall u *tdigest.TDigest :: {tdgen[u]} u != t ==> tdgen[u] == old(tdgen[u])

fn newResampler(dig) (r)
  ensures fresh(r) && r.dig == dig

fn (*resampler).Sample(res, ctx, r) (err)
  requires res.dig != nil
  modifies tdgen
  traces tdigest.FromBytes as fb, TDigest.Merge as mg
  ensures r.Kind != "tdigest" ==> err != nil && ncalls(fb) == 0 && ncalls(mg) == 0
  ensures r.Kind == "tdigest" ==> ncalls(fb) == 1 && arg(fb, 0, 0) == r.Distribution
  ensures r.Kind == "tdigest" && res(fb, 1, 0) != nil ==> err != nil && ncalls(mg) == 0
  ensures r.Kind == "tdigest" && res(fb, 1, 0) == nil ==> ncalls(mg) == 1 && recvof(mg, 0) == res.dig && arg(mg, 0, 0) == res(fb, 0, 0) && err == res(mg, 0, 0)

fn (*resampler).Finish(res, ctx) (b, kind, err)
  requires res.dig != nil
  traces TDigest.Marshal as ms
  ensures err == nil && kind == "tdigest" && ncalls(ms) == 1 && b == res(ms, 0, 0) && arg(ms, 0, 0) == nil

recspec sumObs(a arr[data.Record], p mathint, n mathint) mathint = ite(n <= 0, 0, i64(sumObs(a, p, n - 1) + a[p + n - 1].Observations))
spec mergedOf(r data.Record) mathint = ite(r.Merged == 0, 1, r.Merged)
recspec sumMerged(a arr[data.Record], p mathint, n mathint) mathint = ite(n <= 0, 0, i64(sumMerged(a, p, n - 1) + mergedOf(a[p + n - 1])))

fn Merge(ctx, opts) (out, err)
  modifies tdgen
  traces resampler.Sample as smp, resampler.Finish as fin, Params.New as mk, newResampler as nr
  ghost first int = 0
  ghost last int = 0
  ghost minI int = 0
  ghost maxI int = 0
  at loopend 0 set first := ite(opts.Records[$i].StartTime == out.StartTime, $i, first)
  at loopend 0 set last := ite(opts.Records[$i].EndTime == out.EndTime, $i, last)
  loop 0
    invariant out.Observations == pre(out.Observations) && out.Distribution == pre(out.Distribution) && out.Kind == pre(out.Kind) && out.Min == pre(out.Min) && out.Max == pre(out.Max) && out.MinId == pre(out.MinId) && out.MaxId == pre(out.MaxId) && out.Merged == pre(out.Merged)
    invariant 0 <= first && first <= $i && first < len(opts.Records) && opts.Records[first].StartTime == out.StartTime
    invariant 0 <= last && last <= $i && last < len(opts.Records) && opts.Records[last].EndTime == out.EndTime
    invariant forall k int :: {opts.Records[k]} 0 <= k && k <= $i ==> out.StartTime <= opts.Records[k].StartTime && opts.Records[k].EndTime <= out.EndTime
  loop 1
    invariant out.StartTime == pre(out.StartTime) && out.EndTime == pre(out.EndTime) && out.Distribution == pre(out.Distribution) && out.Kind == pre(out.Kind) && out.Min == pre(out.Min) && out.Max == pre(out.Max) && out.MinId == pre(out.MinId) && out.MaxId == pre(out.MaxId) && out.Merged == pre(out.Merged)
    invariant out.Observations == sumObs(elems(opts.Records), off(opts.Records), $i)
  loop 2
    invariant out.StartTime == pre(out.StartTime) && out.EndTime == pre(out.EndTime) && out.Observations == pre(out.Observations) && out.Distribution == pre(out.Distribution) && out.Kind == pre(out.Kind) && out.Min == pre(out.Min) && out.Max == pre(out.Max) && out.MinId == pre(out.MinId) && out.MaxId == pre(out.MaxId) && out.Merged == pre(out.Merged)
    invariant ncalls(smp) == $i && ncalls(fin) == 0
    invariant forall k int :: {arg(smp, 1, k)} {recvof(smp, k)} {res(smp, 0, k)} {opts.Records[k]} 0 <= k && k < $i ==> arg(smp, 1, k) == opts.Records[k] && recvof(smp, k) == res && res(smp, 0, k) == nil
  at loopend 3 set minI := ite(opts.Records[$i].Min == out.Min && opts.Records[$i].MinId == out.MinId, $i, minI)
  at loopend 3 set maxI := ite(opts.Records[$i].Max == out.Max && opts.Records[$i].MaxId == out.MaxId, $i, maxI)
  loop 3
    invariant out.StartTime == pre(out.StartTime) && out.EndTime == pre(out.EndTime) && out.Observations == pre(out.Observations) && out.Distribution == pre(out.Distribution) && out.Kind == pre(out.Kind) && out.Merged == pre(out.Merged)
    invariant 0 <= minI && minI <= $i && minI < len(opts.Records) && opts.Records[minI].Min == out.Min && opts.Records[minI].MinId == out.MinId
    invariant 0 <= maxI && maxI <= $i && maxI < len(opts.Records) && opts.Records[maxI].Max == out.Max && opts.Records[maxI].MaxId == out.MaxId
    invariant forall k int :: {opts.Records[k]} 0 <= k && k <= $i ==> !(opts.Records[k].Min < out.Min) && !(opts.Records[k].Max > out.Max)
  loop 4
    invariant out.StartTime == pre(out.StartTime) && out.EndTime == pre(out.EndTime) && out.Observations == pre(out.Observations) && out.Distribution == pre(out.Distribution) && out.Kind == pre(out.Kind) && out.Min == pre(out.Min) && out.Max == pre(out.Max) && out.MinId == pre(out.MinId) && out.MaxId == pre(out.MaxId)
    invariant out.Merged == sumMerged(elems(opts.Records), off(opts.Records), $i)
  at before resampler.Finish assert all: ncalls(smp) == len(opts.Records)
  ensures len(opts.Records) == 0 ==> err != nil
  ensures err == nil ==> 0 <= first && first < len(opts.Records) && out.StartTime == opts.Records[first].StartTime
  ensures err == nil ==> 0 <= last && last < len(opts.Records) && out.EndTime == opts.Records[last].EndTime
  ensures err == nil ==> (forall k int :: {opts.Records[k]} 0 <= k && k < len(opts.Records) ==> out.StartTime <= opts.Records[k].StartTime && opts.Records[k].EndTime <= out.EndTime)
  ensures err == nil ==> out.Observations == sumObs(elems(opts.Records), off(opts.Records), len(opts.Records)) && out.Merged == sumMerged(elems(opts.Records), off(opts.Records), len(opts.Records))
  ensures err == nil ==> 0 <= minI && minI < len(opts.Records) && out.Min == opts.Records[minI].Min && out.MinId == opts.Records[minI].MinId
  ensures err == nil ==> 0 <= maxI && maxI < len(opts.Records) && out.Max == opts.Records[maxI].Max && out.MaxId == opts.Records[maxI].MaxId
  ensures err == nil ==> (forall k int :: {opts.Records[k]} 0 <= k && k < len(opts.Records) ==> !(opts.Records[k].Min < out.Min) && !(opts.Records[k].Max > out.Max))
  // every distribution goes once into a new digest, which is then encoded
  ensures err == nil ==> ncalls(mk) == 1 && res(mk, 1, 0) == nil && recvof(mk, 0) == opts.Params && ncalls(nr) == 1 && arg(nr, 0, 0) == as(res(mk, 0, 0), *tdigest.Wrapper).td
  ensures err == nil ==> ncalls(smp) == len(opts.Records) && (forall k int :: {arg(smp, 1, k)} {opts.Records[k]} 0 <= k && k < len(opts.Records) ==> arg(smp, 1, k) == opts.Records[k] && recvof(smp, k) == res(nr, 0, 0) && res(smp, 0, k) == nil)
  ensures err == nil ==> ncalls(fin) == 1 && recvof(fin, 0) == res(nr, 0, 0) && out.Distribution == res(fin, 0, 0) && out.Kind == res(fin, 1, 0)
  // an error of any of them is an error
  ensures (ncalls(mk) == 1 && res(mk, 1, 0) != nil) ==> err != nil
  ensures forall k int :: {res(smp, 0, k)} 0 <= k && k < ncalls(smp) && res(smp, 0, k) != nil ==> err != nil

//
// Merger
//

// truncated quotient, as Go divides
spec tquo(a mathint, b mathint) mathint = ite(a >= 0, a / b, 0 - ((0 - a) / b))
opaque pix(w mathint, now mathint, ps mathint, t mathint) mathint = ite(w - tquo(now - t + ps - 1, ps) < 0, 0, w - tquo(now - t + ps - 1, ps))
spec pixelOf(m *Merger, t mathint) mathint = pix(m.width, m.opts.Now, m.pixel_size, t)

lemma quoMono(a mathint, b mathint, d mathint)
  requires 0 <= a && a <= b && 1 <= d
  trigger a / d, b / d
  ensures a / d <= b / d

lemma quoBound(a mathint, d mathint)
  requires 0 <= a && 1 <= d
  ensures 0 <= a / d && a / d <= a && (d <= a ==> 1 <= a / d)

lemma quoCong(a mathint, b mathint, d mathint)
  requires a == b
  ensures tquo(a, d) == tquo(b, d)

lemma pixMono(w mathint, now mathint, ps mathint, t mathint, u mathint)
  trigger pix(w, now, ps, t), pix(w, now, ps, u)
  requires 1 <= ps && t <= u
  using quoMono
  ensures pix(w, now, ps, t) <= pix(w, now, ps, u)

// times this close to the present do not overflow the arithmetic on them
pred timeOk(m *Merger, t mathint) = m.opts.Now - t + m.pixel_size <= MaxInt && m.opts.Now - t >= 0 - 4611686018427387904

spec started(m *Merger) bool = pushN[m] == 0 && len(m.records) == 0 && len(m.columns) == 0 && 0 <= m.opts.Samples && m.opts.Samples < 1000000

fn NewMerger(opts) (m)
  modifies pushN
  at exit set pushN := stored(pushN, m, 0)
  ensures fresh(m) && arrof(m.columns) == 0 && arrof(m.records) == 0 && m.opts == opts && pushN[m] == 0 && len(m.records) == 0 && len(m.columns) == 0 && m.width == 0 && m.completed_px == 0

fn (*Merger).SetWidth(m, width)
  requires width <= 1073741824
  modifies m.width, m.pixel_size, m.completed_px
  at entry use quoBound(m.opts.Duration, width)
  // with nothing pushed yet, everything is in order
  ensures width > 0 && old(started(m)) ==> histOk(m)
  ensures m.width == width && m.completed_px == width && 1 <= m.pixel_size && (m.pixel_size <= m.opts.Duration || m.pixel_size == 1)

fn (*Merger).timeToPixel(m, time) (px)
  opts reveal=pix
  requires 1 <= m.pixel_size && 0 <= m.width && m.width <= 1073741824
  requires timeOk(m, time)
  at entry use quoBound(m.opts.Now - time + m.pixel_size - 1, m.pixel_size)
  at entry use quoBound(0 - (m.opts.Now - time + m.pixel_size - 1), m.pixel_size)
  at exit hint delta == m.opts.Now - time + m.pixel_size - 1
  at exit use quoCong(delta, m.opts.Now - time + m.pixel_size - 1, m.pixel_size)
  ensures px == pixelOf(m, time) && px >= 0 && px <= 5000000000000000000

fn intsEq(a, b) (r)
  loop 0
    invariant forall k int :: {a[k]} {b[k]} 0 <= k && k < $i ==> a[k] == b[k]
  ensures r ==> len(a) == len(b) && (forall k int :: {a[k]} {b[k]} 0 <= k && k < len(a) ==> a[k] == b[k])
  ensures !r ==> len(a) != len(b) || (exists k int :: {a[k]} 0 <= k && k < len(a) && a[k] != b[k])

fn (*Merger).emit(m, ctx, start, end, mrecs) (err)
  requires m.opts.Samples >= 0 && m.opts.Samples < 1000000
  requires 0 <= start && start <= end && end < 1073741824
  modifies m.columns, elems(m.columns), tdgen
  traces Merge as mrg, load.Load as ld
  at before Merge assert given: $1.Params == m.opts.Params && len($1.Records) == len(mrecs)
  at before Merge assert records: forall k int :: {$1.Records[k]} 0 <= k && k < len(mrecs) ==> $1.Records[k] == mrecs[k].rec
  loop 0
    invariant len(recs) == $i && fresh(recs)
    invariant forall k int :: {recs[k]} {mrecs[k]} 0 <= k && k < $i ==> recs[k] == mrecs[k].rec
  loop 1
    invariant m.columns == old(m.columns)
    invariant arrof(col.Data) == 0 || fresh(col.Data)
    invariant col.X == start && col.W == end - start + 1
    invariant forall k int :: {m.columns[k]} 0 <= k && k < len(m.columns) ==> m.columns[k] == old(m.columns[k])
  ensures err != nil ==> m.columns == old(m.columns)
  ensures err == nil ==> len(m.columns) == old(len(m.columns)) + 1
  ensures err == nil ==> m.columns[old(len(m.columns))].X == start && m.columns[old(len(m.columns))].W == end - start + 1
  ensures arrof(m.columns) == old(arrof(m.columns)) || fresh(m.columns)
  ensures forall k int :: {m.columns[k]} {old(m.columns[k])} 0 <= k && k < old(len(m.columns)) ==> m.columns[k] == old(m.columns[k])
  // merged once and loaded once
  ensures err == nil ==> ncalls(mrg) == 1 && res(mrg, 1, 0) == nil && ncalls(ld) == 1 && arg(ld, 1, 0) == res(mrg, 0, 0) && res(ld, 1, 0) == nil
  ensures ncalls(mrg) == 1 && (res(mrg, 1, 0) != nil ==> err != nil)

recspec touches(r mergeRecord, p mathint) bool = r.start <= p && p <= r.end

pred okMerger(m *Merger) = m.opts.Samples >= 0 && m.opts.Samples < 1000000 && m.width <= 1073741824 && 0 <= m.completed_px && (m.width > 0 ==> 1 <= m.pixel_size) && m.completed_px <= ite(m.width > 0, m.width, 0)

// the columns so far: from right to left, disjoint, in range
pred colsOk(m *Merger) = (forall k int :: {m.columns[k]} 0 <= k && k < len(m.columns) ==> 1 <= m.columns[k].W && m.completed_px <= m.columns[k].X && m.columns[k].X + m.columns[k].W <= m.width) && (forall j int, k int :: {m.columns[j], m.columns[k]} 0 <= j && j < k && k < len(m.columns) ==> m.columns[k].X + m.columns[k].W <= m.columns[j].X)

// a record that no later pixel touches
spec passed(r mergeRecord, c mathint) bool = r.start > c && r.end > c

// what was pushed: the records in order, where each is among those kept, and
// which of them each kept record is
ghostvar pushN kmap[*Merger, mathint]
ghostvar pushed kmap[*Merger, kmap[mathint, data.Record]]
ghostvar keepIdx kmap[*Merger, kmap[mathint, mathint]]
ghostvar srcIdx kmap[*Merger, kmap[mathint, mathint]]
ghostvar whoIdx kmap[*Merger, kmap[mathint, mathint]]

recspec within(a mathint, b mathint, p mathint) bool = a <= p && p <= b

pred recordsOk(m *Merger) = (forall i int :: {m.records[i]} {srcIdx[m][i]} 0 <= i && i < len(m.records) ==> 0 <= srcIdx[m][i] && srcIdx[m][i] < pushN[m] && m.records[i].rec == pushed[m][srcIdx[m][i]] && m.records[i].start == pixelOf(m, m.records[i].rec.StartTime) && m.records[i].end == pixelOf(m, m.records[i].rec.EndTime)) && (forall i int, k int :: {srcIdx[m][i], srcIdx[m][k]} 0 <= i && i < k && k < len(m.records) ==> srcIdx[m][i] < srcIdx[m][k])
pred keptOk(m *Merger) = forall j mathint :: {pushed[m][j]} {keepIdx[m][j]} 0 <= j && j < pushN[m] && pixelOf(m, pushed[m][j].StartTime) <= m.completed_px ==> 0 <= keepIdx[m][j] && keepIdx[m][j] < len(m.records) && srcIdx[m][keepIdx[m][j]] == j
pred endOk(m *Merger) = 0 <= pushN[m] && (pushN[m] == 0 ==> m.completed_px == m.width) && (pushN[m] > 0 ==> m.completed_px == ite(pixelOf(m, pushed[m][pushN[m] - 1].EndTime) + 1 < m.width, pixelOf(m, pushed[m][pushN[m] - 1].EndTime) + 1, m.width))
// the pixels at or above the completed one are covered exactly if a pushed record touches them
pred coverOk(m *Merger) = forall j mathint, p mathint :: {within(pixelOf(m, pushed[m][j].StartTime), pixelOf(m, pushed[m][j].EndTime), p)} 0 <= j && j < pushN[m] && m.completed_px <= p && p < m.width && within(pixelOf(m, pushed[m][j].StartTime), pixelOf(m, pushed[m][j].EndTime), p) ==> (exists k int :: {m.columns[k]} 0 <= k && k < len(m.columns) && m.columns[k].X <= p && p < m.columns[k].X + m.columns[k].W)
pred onlyOk(m *Merger) = forall k int :: {m.columns[k]} {whoIdx[m][k]} 0 <= k && k < len(m.columns) ==> 0 <= whoIdx[m][k] && whoIdx[m][k] < pushN[m] && pixelOf(m, pushed[m][whoIdx[m][k]].StartTime) <= m.columns[k].X && m.columns[k].X + m.columns[k].W - 1 <= pixelOf(m, pushed[m][whoIdx[m][k]].EndTime)
pred hist0(m *Merger) = okMerger(m) && colsOk(m) && 0 <= pushN[m] && recordsOk(m) && keptOk(m) && coverOk(m) && onlyOk(m)
pred histOk(m *Merger) = hist0(m) && m.width > 0 && endOk(m)

fn (*Merger).completed(m, ctx, completed_px) (err)
  requires hist0(m) && 0 <= completed_px
  modifies m.columns, elems(m.columns), m.records, elems(m.records), m.completed_px, tdgen, keepIdx, srcIdx, whoIdx
  ghost lim int = ite(completed_px < m.completed_px, completed_px, m.completed_px)
  ghost blockEnd int = m.completed_px - 1
  ghost posC kmap[int, int]
  ghost posT kmap[int, int]
  ghost posR kmap[int, int]
  // a record that touches all of a column
  ghost who kmap[int, int]
  ghost keptAt kmap[int, int]
  ghost srcOf kmap[int, int]
  ghost newSrc kmap[mathint, mathint]
  ghost newKeep kmap[mathint, mathint]
  ghost newWho kmap[mathint, mathint] = whoIdx[m]
  loop 0
    invariant lim <= px + 1 && px < m.completed_px && completed_px == lim
    invariant m.records == old(m.records) && m.completed_px == old(m.completed_px)
    invariant arrof(cand_emit) == 0 || fresh(cand_emit)
    invariant arrof(to_emit) == 0 || fresh(to_emit)
    invariant arrof(to_emit) == 0 || arrof(to_emit) != arrof(cand_emit)
    invariant arrof(emit_recs) == 0 || fresh(emit_recs)
    invariant arrof(m.columns) == old(arrof(m.columns)) || fresh(m.columns)
    invariant forall i int :: {m.records[i]} 0 <= i && i < len(m.records) ==> m.records[i] == old(m.records[i])
    invariant px <= blockEnd && blockEnd < m.completed_px
    invariant len(to_emit) > 0 ==> px < blockEnd && to_emit_end_px == blockEnd
    invariant forall j int :: {to_emit[j]} 0 <= j && j < len(to_emit) ==> 0 <= to_emit[j] && to_emit[j] < len(m.records)
    invariant forall j int, k int :: {to_emit[j], to_emit[k]} 0 <= j && j < k && k < len(to_emit) ==> to_emit[j] < to_emit[k]
    invariant forall j int :: {to_emit[j]} 0 <= j && j < len(to_emit) ==> m.records[to_emit[j]].start <= px + 1 && blockEnd <= m.records[to_emit[j]].end
    invariant forall i int, p int :: {touches(m.records[i], p)} 0 <= i && i < len(m.records) && px < p && p <= blockEnd && touches(m.records[i], p) ==> 0 <= posT[i] && posT[i] < len(to_emit) && to_emit[posT[i]] == i
    // the columns
    invariant old(len(m.columns)) <= len(m.columns)
    invariant forall k int :: {m.columns[k]} {old(m.columns[k])} 0 <= k && k < old(len(m.columns)) ==> m.columns[k] == old(m.columns[k])
    invariant forall k int :: {m.columns[k]} old(len(m.columns)) <= k && k < len(m.columns) ==> 1 <= m.columns[k].W && blockEnd < m.columns[k].X && m.columns[k].X + m.columns[k].W <= m.completed_px
    invariant forall j int, k int :: {m.columns[j], m.columns[k]} 0 <= j && j < k && k < len(m.columns) ==> m.columns[k].X + m.columns[k].W <= m.columns[j].X
    invariant forall k int :: {who[k]} {m.columns[k]} old(len(m.columns)) <= k && k < len(m.columns) ==> 0 <= who[k] && who[k] < len(m.records) && m.records[who[k]].start <= m.columns[k].X && m.columns[k].X + m.columns[k].W - 1 <= m.records[who[k]].end
    invariant forall i int, p int :: {touches(m.records[i], p)} 0 <= i && i < len(m.records) && blockEnd < p && p < m.completed_px && touches(m.records[i], p) ==> (exists k int :: {m.columns[k]} old(len(m.columns)) <= k && k < len(m.columns) && m.columns[k].X <= p && p < m.columns[k].X + m.columns[k].W)
    invariant forall k int :: {newWho[k]} 0 <= k && k < old(len(m.columns)) ==> newWho[k] == whoIdx[m][k]
    invariant forall k int :: {newWho[k]} {who[k]} old(len(m.columns)) <= k && k < len(m.columns) ==> newWho[k] == srcIdx[m][who[k]]
  loop 1
    invariant arrof(cand_emit) == 0 || fresh(cand_emit)
    invariant arrof(to_emit) == 0 || arrof(to_emit) != arrof(cand_emit)
    invariant forall j int :: {to_emit[j]} {pre(to_emit[j])} 0 <= j && j < len(to_emit) ==> to_emit[j] == pre(to_emit[j])
    invariant len(cand_emit) <= $i
    invariant forall j int :: {cand_emit[j]} 0 <= j && j < len(cand_emit) ==> 0 <= cand_emit[j] && cand_emit[j] < $i && touches(m.records[cand_emit[j]], px)
    invariant forall j int, k int :: {cand_emit[j], cand_emit[k]} 0 <= j && j < k && k < len(cand_emit) ==> cand_emit[j] < cand_emit[k]
    invariant forall i int :: {touches(m.records[i], px)} 0 <= i && i < $i && touches(m.records[i], px) ==> 0 <= posC[i] && posC[i] < len(cand_emit) && cand_emit[posC[i]] == i
  loop 2
    invariant len(emit_recs) == $i
    invariant arrof(emit_recs) == 0 || fresh(emit_recs)
    invariant forall k int :: {emit_recs[k]} 0 <= k && k < $i ==> emit_recs[k] == m.records[to_emit[k]]
    invariant forall i int :: {m.records[i]} 0 <= i && i < len(m.records) ==> m.records[i] == old(m.records[i])
  loop 3
    invariant len(emit_recs) == $i
    invariant arrof(emit_recs) == 0 || fresh(emit_recs)
    invariant forall k int :: {emit_recs[k]} 0 <= k && k < $i ==> emit_recs[k] == m.records[to_emit[k]]
    invariant forall i int :: {m.records[i]} 0 <= i && i < len(m.records) ==> m.records[i] == old(m.records[i])
  loop 4
    invariant arrof(to_remove) == 0 || fresh(to_remove)
    invariant forall j int :: {to_remove[j]} 0 <= j && j < len(to_remove) ==> 0 <= to_remove[j] && to_remove[j] < $i && passed(m.records[to_remove[j]], lim)
    invariant forall j int, k int :: {to_remove[j], to_remove[k]} 0 <= j && j < k && k < len(to_remove) ==> to_remove[j] < to_remove[k]
    invariant forall i int :: {m.records[i]} 0 <= i && i < $i && passed(m.records[i], lim) ==> 0 <= posR[i] && posR[i] < len(to_remove) && to_remove[posR[i]] == i
  loop 5
    invariant len(m.records) <= $i && arrof(m.records) == old(arrof(m.records)) && off(m.records) == old(off(m.records)) && len(to_remove) <= pre(len(to_remove))
    invariant forall i int :: {old(m.records[i])} {current[i]} $i <= i && i < len(current) ==> current[i] == old(m.records[i])
    invariant cap(m.records) == old(cap(m.records))
    invariant arrof(to_remove) == 0 || fresh(to_remove)
    invariant forall j int :: {to_remove[j]} 0 <= j && j < len(to_remove) ==> $i <= to_remove[j] && to_remove[j] < len(current)
    invariant forall j int, i int :: {to_remove[j], old(m.records[i])} 0 <= j && j < len(to_remove) && i == to_remove[j] ==> passed(old(m.records[i]), lim)
    invariant forall j int, k int :: {to_remove[j], to_remove[k]} 0 <= j && j < k && k < len(to_remove) ==> to_remove[j] < to_remove[k]
    invariant forall i int :: {old(m.records[i])} $i <= i && i < len(current) && passed(old(m.records[i]), lim) ==> 0 <= posR[i] - (pre(len(to_remove)) - len(to_remove)) && posR[i] - (pre(len(to_remove)) - len(to_remove)) < len(to_remove) && to_remove[posR[i] - (pre(len(to_remove)) - len(to_remove))] == i
    invariant forall i int :: {keptAt[i]} {old(m.records[i])} 0 <= i && i < $i && !passed(old(m.records[i]), lim) ==> 0 <= keptAt[i] && keptAt[i] < len(m.records) && m.records[keptAt[i]] == old(m.records[i])
    invariant forall i int :: {keptAt[i]} 0 <= i && i < $i && !passed(old(m.records[i]), lim) ==> srcOf[keptAt[i]] == i
    invariant forall j int :: {srcOf[j]} {m.records[j]} 0 <= j && j < len(m.records) ==> 0 <= srcOf[j] && srcOf[j] < $i && m.records[j] == old(m.records[srcOf[j]])
    invariant forall j int, k int :: {srcOf[j], srcOf[k]} 0 <= j && j < k && k < len(m.records) ==> srcOf[j] < srcOf[k]
    invariant forall j int :: {newSrc[j]} {srcOf[j]} 0 <= j && j < len(m.records) ==> newSrc[j] == srcIdx[m][srcOf[j]]
    invariant forall i int :: {newKeep[srcIdx[m][i]]} {keptAt[i]} 0 <= i && i < $i && !passed(old(m.records[i]), lim) ==> newKeep[srcIdx[m][i]] == keptAt[i]
  at postloop 5 hint forall j mathint, p mathint :: {within(pixelOf(m, pushed[m][j].StartTime), pixelOf(m, pushed[m][j].EndTime), p)} 0 <= j && j < pushN[m] && lim <= p && p < old(m.completed_px) && within(pixelOf(m, pushed[m][j].StartTime), pixelOf(m, pushed[m][j].EndTime), p) ==> 0 <= keepIdx[m][j] && keepIdx[m][j] < old(len(m.records)) && touches(old(m.records[keepIdx[m][j]]), p)
  at postloop 5 hint forall j mathint :: {pushed[m][j]} {newKeep[j]} 0 <= j && j < pushN[m] && pixelOf(m, pushed[m][j].StartTime) <= lim ==> 0 <= keepIdx[m][j] && keepIdx[m][j] < len(current) && srcIdx[m][keepIdx[m][j]] == j && !passed(old(m.records[keepIdx[m][j]]), lim)
  at postloop 5 hint forall j mathint :: {pushed[m][j]} {newKeep[j]} 0 <= j && j < pushN[m] && pixelOf(m, pushed[m][j].StartTime) <= lim ==> newKeep[j] == keptAt[keepIdx[m][j]] && srcOf[keptAt[keepIdx[m][j]]] == keepIdx[m][j]
  at postloop 5 set srcIdx := stored(srcIdx, m, newSrc)
  at postloop 5 set keepIdx := stored(keepIdx, m, newKeep)
  at postloop 5 set whoIdx := stored(whoIdx, m, newWho)
  at loopend 1 set posC := ite(touches(m.records[$i - 1], px), stored(posC, $i - 1, len(cand_emit) - 1), posC)
  at loopend 0 set posT := posC
  at after intsEq hint $r0 ==> (forall i int, p int :: {touches(m.records[i], p)} 0 <= i && i < len(m.records) && px < p && p <= blockEnd && touches(m.records[i], p) ==> touches(m.records[i], px))
  at after intsEq set blockEnd := ite($r0, blockEnd, px)
  at loopend 4 set posR := ite(passed(m.records[$i - 1], lim), stored(posR, $i - 1, len(to_remove) - 1), posR)
  at loopend 5 set newSrc := ite(len(m.records) > 0 && !passed(old(m.records[$i - 1]), lim), stored(newSrc, len(m.records) - 1, srcIdx[m][$i - 1]), newSrc)
  at loopend 5 set newKeep := ite(len(m.records) > 0 && !passed(old(m.records[$i - 1]), lim), stored(newKeep, srcIdx[m][$i - 1], len(m.records) - 1), newKeep)
  at loopend 5 set keptAt := ite(len(m.records) > 0 && !passed(old(m.records[$i - 1]), lim), stored(keptAt, $i - 1, len(m.records) - 1), keptAt)
  at loopend 5 set srcOf := ite(len(m.records) > 0 && !passed(old(m.records[$i - 1]), lim), stored(srcOf, len(m.records) - 1, $i - 1), srcOf)
  // each column is made from exactly the records that touch each of its pixels, each once
  at before Merger.emit set newWho := stored(newWho, len(m.columns), srcIdx[m][to_emit[0]])
  at before Merger.emit set who := stored(who, len(m.columns), to_emit[0])
  at before Merger.emit assert some: len($3) > 0
  at before Merger.emit assert from: forall j int, p int :: {touches($3[j], p)} 0 <= j && j < len($3) && $1 <= p && p <= $2 ==> touches($3[j], p) && $3[j] == m.records[to_emit[j]]
  at before Merger.emit assert all: forall i int, p int :: {touches(m.records[i], p)} 0 <= i && i < len(m.records) && $1 <= p && p <= $2 && touches(m.records[i], p) ==> 0 <= posT[i] && posT[i] < len($3) && $3[posT[i]] == m.records[i]
  at before Merger.emit assert once: forall j int, k int :: {to_emit[j], to_emit[k]} 0 <= j && j < k && k < len($3) ==> to_emit[j] < to_emit[k]
  ensures err == nil ==> m.completed_px == lim
  ensures err == nil ==> m.completed_px == ite(completed_px < old(m.completed_px), completed_px, old(m.completed_px))
  ensures err == nil ==> arrof(m.records) == old(arrof(m.records))
  ensures err == nil ==> hist0(m)
  ensures err == nil ==> old(len(m.columns)) <= len(m.columns) && (forall k int :: {m.columns[k]} {old(m.columns[k])} 0 <= k && k < old(len(m.columns)) ==> m.columns[k] == old(m.columns[k]))
  // exactly the pixels some record touches are covered
  ensures err == nil ==> (forall k int, p int :: {touches(old(m.records[who[k]]), p)} old(len(m.columns)) <= k && k < len(m.columns) && m.columns[k].X <= p && p < m.columns[k].X + m.columns[k].W ==> 0 <= who[k] && who[k] < old(len(m.records)) && touches(old(m.records[who[k]]), p))
  ensures err == nil ==> (forall i int, p int :: {touches(old(m.records[i]), p)} 0 <= i && i < old(len(m.records)) && lim <= p && p < old(m.completed_px) && touches(old(m.records[i]), p) ==> (exists k int :: {m.columns[k]} old(len(m.columns)) <= k && k < len(m.columns) && m.columns[k].X <= p && p < m.columns[k].X + m.columns[k].W))
  // the records some later pixel may touch are kept, in order
  ensures err == nil ==> (forall i int :: {old(m.records[i])} 0 <= i && i < old(len(m.records)) && !passed(old(m.records[i]), lim) ==> 0 <= keptAt[i] && keptAt[i] < len(m.records) && m.records[keptAt[i]] == old(m.records[i]))
  ensures err == nil ==> (forall j int :: {m.records[j]} 0 <= j && j < len(m.records) ==> 0 <= srcOf[j] && srcOf[j] < old(len(m.records)) && m.records[j] == old(m.records[srcOf[j]]))
  ensures err == nil ==> (forall j int, k int :: {srcOf[j], srcOf[k]} 0 <= j && j < k && k < len(m.records) ==> srcOf[j] < srcOf[k])
  ensures arrof(m.columns) == old(arrof(m.columns)) || fresh(m.columns)

fn (*Merger).Push(m, ctx, rec) (err)
  requires m.width > 0 ==> histOk(m) && timeOk(m, rec.StartTime) && timeOk(m, rec.EndTime) && (pushN[m] > 0 ==> rec.EndTime <= pushed[m][pushN[m] - 1].EndTime)
  modifies m.columns, elems(m.columns), m.records, elems(m.records), m.completed_px, tdgen, pushN, pushed, keepIdx, srcIdx, whoIdx
  at entry use pixMono(m.width, m.opts.Now, m.pixel_size, rec.EndTime, pushed[m][pushN[m] - 1].EndTime)
  at entry hint m.width > 0 && pushN[m] > 0 ==> pixelOf(m, rec.EndTime) <= pixelOf(m, pushed[m][pushN[m] - 1].EndTime)
  at after Merger.completed set pushed := stored(pushed, m, stored(pushed[m], pushN[m], rec))
  at after Merger.completed set srcIdx := stored(srcIdx, m, stored(srcIdx[m], len(m.records), pushN[m]))
  at after Merger.completed set keepIdx := stored(keepIdx, m, stored(keepIdx[m], pushN[m], len(m.records)))
  at after Merger.completed set pushN := stored(pushN, m, pushN[m] + 1)
  ensures arrof(m.columns) == old(arrof(m.columns)) || fresh(m.columns)
  ensures err == nil ==> arrof(m.records) == old(arrof(m.records)) || fresh(m.records)
  ensures m.width <= 0 ==> err != nil && m.columns == old(m.columns) && m.records == old(m.records)
  ensures err == nil ==> histOk(m)
  ensures err == nil ==> pushN[m] == old(pushN[m]) + 1 && pushed[m][old(pushN[m])] == rec
  ensures forall j mathint :: {pushed[m][j]} 0 <= j && j < old(pushN[m]) ==> pushed[m][j] == old(pushed[m][j])

fn (*Merger).Finish(m, ctx) (cols, err)
  requires hist0(m)
  modifies m.columns, elems(m.columns), m.records, elems(m.records), m.completed_px, tdgen, keepIdx, srcIdx, whoIdx
  ensures err == nil ==> cols == m.columns && m.completed_px == 0 && hist0(m)
