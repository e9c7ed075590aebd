package database/files

// what an atomic.Value holds
ghostvar valueOf kmap[*atomic.Value, any]
// the sets of names that no worker holds: published ones, which never change
// again, and private copies
ghostvar kept kmap[*sset.Set, bool]

extern sync/atomic.(*Value).Load(v) (x)
  ensures x == valueOf[v]
extern sync/atomic.(*Value).Store(v, x)
  requires x != nil
  modifies valueOf
  ensures valueOf == stored(old(valueOf), v, x)

pred sepSet(a *sset.Set, b *sset.Set) = a != b && a.set != b.set && (arrof(a.order) != arrof(b.order) || arrof(a.order) == 0)
pred pubOK(x any) = is(x, *sset.Set) ==> as(x, *sset.Set) != nil && sset.wf(as(x, *sset.Set)) && kept[as(x, *sset.Set)]
pred hasName(x any, n string) = is(x, *sset.Set) && has(as(x, *sset.Set).set, n)
pred hasSet(x any, s *sset.Set) = is(x, *sset.Set) && as(x, *sset.Set) == s
pred wfNames(db *DB) = len(db.names_w) == len(db.names_w_mu)

monitor (DB).names_mu
  guards valueOf
  invariant published: pubOK(valueOf[&this.names])

monitor (DB).names_w_mu[]
  guards names_w[at], names_w[at].*, map(this.names_w[at].set), elems(this.names_w[at].order)
  invariant wf: this.names_w[at] != nil && sset.wf(this.names_w[at])
  invariant own: forall s *sset.Set :: {kept[s]} kept[s] ==> sepSet(this.names_w[at], s)

pred sameSet(a *sset.Set) = a.order == old(a.order) && a.set == old(a.set) && (arrof(a.order) == 0 || elems(a.order) == old(elems(a.order))) && dom(a.set) == old(dom(a.set))

fn (*DB).Metrics(db, ctx, cb) (err)
  requires wfNames(db)
  requires forall s *sset.Set :: {kept[s]} kept[s] ==> s != nil && allocated(s) && sset.wf(s) && allocated(s.set) && allocated(s.order)
  modifies valueOf, kept, elems(db.names_w), allof(db.names_w[0].order), allof(db.names_w[0].set), allmaps(db.names_w[0].set), allelems(db.names_w[0].order)
  ghost took kmap[mathint, kmap[string, bool]]
  ghost final *sset.Set = nil
  ghost inSlot bool = false
  at after lock:names_w_mu[] set inSlot := true
  at before unlock:names_w_mu[] set inSlot := false
  at after lock:names_w_mu[] set took[$at] := dom(db.names_w[$at].set)
  at after Set.Copy set kept[$r0] := true
  at after sset.New set kept[$r0] := !inSlot
  at before unlock:names_w_mu[] assert merged: forall x string :: {has(names.set, x)} took[$at][x] ==> has(names.set, x)
  // all the names are in what is published
  at before unlock:names_mu assert published: forall x string :: {has(names.set, x)} has(names.set, x) ==> hasName(valueOf[&db.names], x)
  at before unlock:names_mu assert all: forall k int, x string :: {took[k][x]} 0 <= k && k < len(db.names_w) && took[k][x] ==> has(names.set, x)
  at before unlock:names_mu set final := names
  loop 0
    invariant names != nil && sset.wf(names) && kept[names] && !inSlot && wfNames(db)
    invariant pubOK(valueOf[&db.names])
    invariant !copied ==> hasSet(valueOf[&db.names], names) || len(names.order) == 0
    invariant copied ==> !old(kept[names]) && fresh(names) && fresh(names.set) && (fresh(names.order) || arrof(names.order) == 0)
    invariant forall x string :: {hasName(valueOf[&db.names], x)} hasName(valueOf[&db.names], x) ==> has(names.set, x)
    invariant forall k int, x string :: {took[k][x]} 0 <= k && k < $i && took[k][x] ==> has(names.set, x)
    invariant forall s *sset.Set :: {kept[s]} old(kept[s]) ==> kept[s] && sameSet(s)
    invariant forall s *sset.Set :: {kept[s]} kept[s] ==> s != nil && allocated(s) && allocated(s.set) && allocated(s.order)
  loop 1
    invariant ncalls(cb) == $i && names == final && sset.wf(names)
    invariant forall i int :: {arg(cb, 0, i)} 0 <= i && i < $i ==> arg(cb, 0, i) == names.order[i]
    invariant forall i int :: {res(cb, 0, i)} 0 <= i && i < $i ==> res(cb, 0, i)
    invariant forall i int :: {res(cb, 1, i)} 0 <= i && i < $i ==> res(cb, 1, i) == nil
    invariant $out0 == nil
    invariant forall s *sset.Set :: {kept[s]} old(kept[s]) ==> kept[s] && sameSet(s)
  // the callback sees the published names in order, and is obeyed
  ensures ncalls(cb) <= len(final.order) && (forall i int :: {arg(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> arg(cb, 0, i) == final.order[i])
  ensures forall i int :: {res(cb, 0, i)} 0 <= i && i < ncalls(cb) - 1 ==> res(cb, 0, i)
  ensures forall i int :: {res(cb, 1, i)} 0 <= i && i < ncalls(cb) - 1 ==> res(cb, 1, i) == nil
  ensures ncalls(cb) > 0 ==> err == res(cb, 1, ncalls(cb) - 1)
  ensures ncalls(cb) == 0 ==> err == nil
  ensures ncalls(cb) == len(final.order) || ncalls(cb) > 0 && (!res(cb, 0, ncalls(cb) - 1) || err != nil)
  // a set once published never changes
  ensures forall s *sset.Set :: {kept[s]} old(kept[s]) ==> kept[s] && sameSet(s)

fn (*DB).write(db, ctx, num, value) (ok, err)
  requires ctx != nil && wfDB(db) && wfNames(db) && noLocks(db.locks) && len(value.metric) <= 0x3fffffffff && 0 <= num && num < len(db.names_w)
  requires forall s *sset.Set :: {kept[s]} kept[s] ==> s != nil && allocated(s) && allocated(s.set) && allocated(s.order)
  requires notMapped(value.data) && len(value.data) <= 0x7fffffffffff
  modifies held, lpMine, lpState, db.locks.locks, allmaps(db.locks.locks), allof(db.locks.locks[""].ref), mine, openedAs, db.fch.toks, allmaps(db.fch.toks), db.fch.ch.tok, db.fch.ch.order, db.fch.ch.pcg.*, map(db.fch.ch.handles), allelems(db.fch.ch.order)
  modifies valueOf, elems(db.names_w), allof(db.names_w[0].order), allof(db.names_w[0].set), allmaps(db.names_w[0].set), allelems(db.names_w[0].order)
  traces lockPool.Lock as lk, lockPool.Unlock as ul, metric.Write as wr, Set.Add as add, Value.Load as ld
  at before newMetric assert own: lockedFor(db.locks, value.metric)
  at before metric.Write assert own: lockedFor(db.locks, value.metric)
  at before Set.Add assert name: $0 == value.metric
  at after Value.Load assume pubOK($r0)
  ghost known bool = false
  at after Set.Has set known := $r0 && $0 == value.metric
  ensures ncalls(lk) == 1 && ncalls(ul) == 1 && noLocks(db.locks) && held == old(held)
  // the value goes to the metric, once
  ensures ncalls(wr) <= 1 && (ncalls(wr) == 1 ==> arg(wr, 1, 0) == value.start && arg(wr, 2, 0) == value.end && arg(wr, 3, 0) == value.data)
  ensures ncalls(wr) == 1 ==> err == res(wr, 1, 0) && ok == (res(wr, 0, 0) && err == nil)
  ensures ncalls(wr) == 0 ==> err != nil && !ok
  // a stored metric is in a published set or in a worker's
  at before unlock:names_w_mu[] assert added: has(db.names_w[$at].set, value.metric)
  ensures ok ==> known || ncalls(add) == 1
  ensures forall s *sset.Set :: {kept[s]} kept[s] ==> sameSet(s)

fn newDBPopulator(dir) (dp)
  ensures fresh(dp) && dp.dir == dir && dp.out != nil && sset.wf(dp.out) && fresh(dp.out) && fresh(dp.out.set) && fresh(dp.out.order) && dp.dirbuf == nil && dp.namebuf == nil && dp.pathbuf == nil
  ensures forall x string :: {has(dp.out.set, x)} !has(dp.out.set, x)

extern syscall.ReadDirent(fd, buf) (n, err)
  modifies elems(buf)
  ensures err == nil ==> 0 <= n && n <= len(buf)

// the buffers of a populator are its own
pred wfPop(dp *dbPopulator) = dp.out != nil && sset.wf(dp.out) && len(dp.dirbuf) <= 0x3fffffffffff && len(dp.dir) <= 0x3fffffffffff
   && (arrof(dp.namebuf) == 0 || arrof(dp.namebuf) != arrof(dp.dirbuf) && arrof(dp.namebuf) != arrof(dp.pathbuf)) && (arrof(dp.pathbuf) == 0 || arrof(dp.pathbuf) != arrof(dp.dirbuf))

fn (*dbPopulator).populate(dp, ctx) (err)
  opts strfacts
  requires ctx != nil && wfPop(dp)
  modifies mine, dp.dirbuf, dp.namebuf, dp.pathbuf, elems(dp.dirbuf), elems(dp.namebuf), elems(dp.pathbuf), dp.out.*, map(dp.out.set), elems(dp.out.order)
  traces Set.Add as add
  ghost D string = str(dp.dirbuf)
  // a name is the decoded name of the directory the file is in
  at before Set.Add assert name: $0 == decR(D, "", false, false)
  at before dbPopulator.populate assume len(dp.dirbuf) <= 0x3fffffffffff
  at before dbPopulator.populate hint sub(str(dp.dirbuf), 0, len(D)) == D
  at after dbPopulator.populate hint $r0 == nil ==> sub(str(dp.dirbuf), 0, len(D)) == D
  ensures ncalls(add) <= 1
  ensures mine == old(mine)
  ensures wfPop(dp) && dp.out.set == old(dp.out.set) && dp.out == old(dp.out)
  ensures err == nil ==> len(dp.dirbuf) >= old(len(dp.dirbuf)) && sub(str(dp.dirbuf), 0, old(len(dp.dirbuf))) == old(str(dp.dirbuf))
  ensures forall x string :: {has(dp.out.set, x)} old(has(dp.out.set, x)) ==> has(dp.out.set, x)
  ensures fresh(dp.dirbuf) || arrof(dp.dirbuf) == old(arrof(dp.dirbuf))
  ensures fresh(dp.namebuf) || arrof(dp.namebuf) == old(arrof(dp.namebuf)) || arrof(dp.namebuf) == 0
  ensures fresh(dp.pathbuf) || arrof(dp.pathbuf) == old(arrof(dp.pathbuf))
  ensures fresh(dp.out.order) || arrof(dp.out.order) == old(arrof(dp.out.order))
  loop 0
    invariant mine == old(mine) && wfPop(dp) && dp.out == old(dp.out) && dp.out.set == old(dp.out.set) && fresh(dirents) && len(dirents) == 4096
    invariant arrof(dirents) != arrof(dp.dirbuf) && arrof(dirents) != arrof(dp.namebuf) && arrof(dirents) != arrof(dp.pathbuf) && len(dp.dirbuf) == len(D)
    invariant dirbuf_len == len(D) && str(dp.dirbuf) == D
    invariant ncalls(add) == ite(added, 1, 0)
    invariant forall x string :: {has(dp.out.set, x)} old(has(dp.out.set, x)) ==> has(dp.out.set, x)
    invariant fresh(dp.dirbuf) || arrof(dp.dirbuf) == old(arrof(dp.dirbuf))
    invariant fresh(dp.namebuf) || arrof(dp.namebuf) == old(arrof(dp.namebuf)) || arrof(dp.namebuf) == 0
    invariant fresh(dp.pathbuf) || arrof(dp.pathbuf) == old(arrof(dp.pathbuf))
    invariant fresh(dp.out.order) || arrof(dp.out.order) == old(arrof(dp.out.order))
  loop 1
    invariant arrof(buf) == arrof(dirents) || len(buf) == 0
    invariant mine == old(mine) && wfPop(dp) && dp.out == old(dp.out) && dp.out.set == old(dp.out.set) && fresh(dirents) && len(dirents) == 4096
    invariant arrof(dirents) != arrof(dp.dirbuf) && arrof(dirents) != arrof(dp.namebuf) && arrof(dirents) != arrof(dp.pathbuf) && len(dp.dirbuf) == len(D)
    invariant dirbuf_len == len(D) && str(dp.dirbuf) == D
    invariant ncalls(add) == ite(added, 1, 0)
    invariant forall x string :: {has(dp.out.set, x)} old(has(dp.out.set, x)) ==> has(dp.out.set, x)
    invariant fresh(dp.dirbuf) || arrof(dp.dirbuf) == old(arrof(dp.dirbuf))
    invariant fresh(dp.namebuf) || arrof(dp.namebuf) == old(arrof(dp.namebuf)) || arrof(dp.namebuf) == 0
    invariant fresh(dp.pathbuf) || arrof(dp.pathbuf) == old(arrof(dp.pathbuf))
    invariant fresh(dp.out.order) || arrof(dp.out.order) == old(arrof(dp.out.order))
    decreases len(buf)

fn (*DB).PopulateMetrics(db, ctx) (err)
  requires ctx != nil && wfNames(db) && len(db.dir) <= 0x3fffffffff
  requires forall s *sset.Set :: {kept[s]} kept[s] ==> s != nil && allocated(s) && allocated(s.set) && allocated(s.order)
  modifies mine, valueOf, kept
  at after Value.Load assume pubOK($r0)
  ghost walked kmap[string, bool]
  ghost cur any = nil
  at after dbPopulator.populate set walked := dom(dp.out.set)
  at after lock:names_mu set cur := valueOf[&db.names]
  at before Value.Store set kept[as($0, *sset.Set)] := true
  loop 0
    invariant dp.out != nil && sset.wf(dp.out) && fresh(dp.out) && fresh(dp.out.set) && (fresh(dp.out.order) || arrof(dp.out.order) == 0)
    invariant forall x string :: {walked[x]} walked[x] ==> has(dp.out.set, x)
    invariant forall i int :: {names.order[i]} 0 <= i && i < $i ==> has(dp.out.set, names.order[i]) || old != nil && has(old.set, names.order[i])
  // what is published: the names found on disk, and those published during the walk
  at before unlock:names_mu assert found: forall x string :: {walked[x]} walked[x] ==> hasName(valueOf[&db.names], x)
  at before unlock:names_mu assert during: forall x string :: {hasName(cur, x)} hasName(cur, x) && (old == nil || !has(old.set, x)) ==> hasName(valueOf[&db.names], x)
  ensures forall s *sset.Set :: {kept[s]} old(kept[s]) ==> kept[s] && sameSet(s)
