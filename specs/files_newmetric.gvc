package database/files

ufunc parsedOK(s string) bool
ufunc parsedInt(s string) mathint
pred isData(n string) = len(n) >= 5 && sub(n, len(n) - 5, len(n)) == ".data"
spec numOf(n string) mathint = parsedInt(sub(n, 0, len(n) - 5))
pred dataFile(n string) = isData(n) && parsedOK(sub(n, 0, len(n) - 5))

// the directory of a metric: that of the database, a slash, and the encoded name
pred dirOf(d string, root string, name string) = len(d) >= len(withSlash(root)) && sub(d, 0, len(withSlash(root))) == withSlash(root) && decR(sub(d, len(withSlash(root)), len(d)), "", false, false) == name

extern strings.HasSuffix(s, suffix) (r)
  ensures r == (len(s) >= len(suffix) && sub(s, len(s) - len(suffix), len(s)) == suffix)
extern strconv.ParseInt(s, base, bitSize) (i, err)
  ensures (err == nil) == parsedOK(s)
  ensures err == nil ==> i == parsedInt(s)
extern os.(*File).Readdirnames(f, n) (names, err)
extern os.(*File).Close(f) (err)
extern os.IsNotExist(err) (r)
extern os.MkdirAll(path, perm) (err)

fn newMetric(ctx, opts) (m, err)
  opts strfacts reveal=fname
  requires opts.fch != nil && opts.fch.ch != nil && len(opts.dir) <= 0x3fffffffff && len(opts.name) <= 0x3fffffffff
  modifies mine, openedAs, opts.fch.toks, allmaps(opts.fch.toks), opts.fch.ch.tok, opts.fch.ch.order, opts.fch.ch.pcg.*, map(opts.fch.ch.handles), allelems(opts.fch.ch.order)
  traces os.Open as open, os.MkdirAll as mk, File.Readdirnames as list, fileCache.acquireFile as acq
  at after strconv.ParseInt assume $r1 == nil ==> 0 - 0x3fffffffffffffff <= $r0 && $r0 <= 0x3fffffffffffffff
  at after metricToDir assume len($r0) <= 0x3fffffffffff
  // a reader makes nothing
  ensures opts.ro ==> ncalls(mk) == 0 && ncalls(acq) == 0
  ensures ncalls(acq) <= 1 && (ncalls(acq) == 1 ==> arg(acq, 1, 0) == fname(m.dir, 1) || err != nil)
  ensures mine == old(mine) && noneLost()
  ensures err == nil ==> fresh(m) && m.opts == opts && wfMet(m) && numsOK(m) && fresh(m.interned)
  ensures err == nil ==> dirOf(m.dir, opts.dir, opts.name) && ncalls(open) > 0 && arg(open, 0, ncalls(open) - 1) == m.dir
  // all the data files in the directory are between first and last
  ensures err == nil ==> ncalls(list) == 1 && (forall i int :: {res(list, 0, 0)[i]} 0 <= i && i < len(res(list, 0, 0)) && dataFile(res(list, 0, 0)[i]) ==> m.first <= numOf(res(list, 0, 0)[i]) && numOf(res(list, 0, 0)[i]) <= m.last)
  ensures err == nil ==> m.first <= m.last || opts.ro && m.first == 1 && m.last == 0
  loop 0
    invariant interned != nil && fresh(interned)
    invariant forall k int :: {has(interned, k)} has(interned, k) ==> interned[k] == fname(dir, k)
    invariant 0 - 0x3fffffffffffffff <= first && first <= 0x3fffffffffffffff && 0 - 0x3fffffffffffffff <= last && last <= 0x3fffffffffffffff
    invariant first <= last
    invariant forall i int :: {names[i]} 0 <= i && i < $i && dataFile(names[i]) ==> first_set && first <= numOf(names[i]) && numOf(names[i]) <= last
    invariant arrof(fb) == 0 || fresh(fb)

fn (*metric).ReadLast(m, ctx, buf) (start, end, data, err)
  opts strfacts
  requires ctx != nil && wfMet(m) && numsOK(m)
  modifies m.fb, allelems(m.fb), map(m.interned), mine, openedAs, elems(buf), m.opts.fch.toks, allmaps(m.opts.fch.toks), m.opts.fch.ch.tok, m.opts.fch.ch.order, m.opts.fch.ch.pcg.*, map(m.opts.fch.ch.handles), allelems(m.opts.fch.ch.order)
  ensures mine == old(mine)
  ghost st mathint = 0
  ghost acc string = ""
  ghost wasS mathint = 0
  ghost wasE mathint = 0
  at after file.Record set st := group(st, $r0, $r1 != nil, 9223372036854775807)
  at after file.Record set wasS := $r0.start
  at after file.Record set wasE := $r0.end
  at loop 1 set st := 0
  at loop 1 set acc := ""
  at after file.Record set acc := acc + str($r0.data)
  at after Context.Err assume $r0 != nil
  // the first whole value met, or nothing
  ensures err == nil && st == 1 ==> start == wasS && end == wasE && str(data) == acc
  ensures err == nil && st != 1 ==> start == 0 && end == 0 && data == nil
  loop 0
    invariant wfMet(m) && mine == old(mine) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant num <= m.last && (m.last >= m.first ==> num >= m.first - 1) && (m.last < m.first ==> num == m.last)
    invariant st != 1 && start == 0 && $out1 == 0 && data == nil
    decreases num - m.first + 1
  loop 1
    invariant wfMet(m) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant owned(f) && openedAs[f.data] == path && mine == stored(old(mine), f.data, f.len) && old(mine[f.data]) == 0
    invariant 0 <= head && head <= f.cap + 1
    invariant capacity == f.cap
    invariant st != 1 && start == 0 && $out1 == 0 && data == nil
    decreases f.cap + 1 - head
  loop 2
    invariant wfMet(m) && (fresh(buf) || arrof(buf) == old(arrof(buf)))
    invariant owned(f) && openedAs[f.data] == path && mine == stored(old(mine), f.data, f.len) && old(mine[f.data]) == 0
    invariant st == 2 && str(buf) == acc && 0 <= head && head <= f.cap
    invariant start == 0 && $out1 == 0 && data == nil
    decreases f.cap + 1 - head
