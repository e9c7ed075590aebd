package database/files

pred wfDB(db *DB) = db.fch != nil && db.fch.ch != nil && db.locks != nil && len(db.dir) <= 0x3fffffffff && 0 <= db.fch.opts.Cap && db.fch.opts.Cap <= 0x7fffffff
// nothing of a lock pool is held by the running goroutine
pred noLocks(l *lockPool) = (forall s *lockPoolState :: {held(s.mu)} !held(s.mu)) && (forall k string :: {lpMine[l][k]} lpMine[l][k] == 0)
pred lockedFor(l *lockPool, k string) = lpMine[l][k] == 1 && held(lpState[l][k].mu)

fn (*DB).Query(db, ctx, metric, end, buf, cb) (err)
  requires ctx != nil && wfDB(db) && noLocks(db.locks) && len(metric) <= 0x3fffffffff
  modifies held, lpMine, lpState, db.locks.locks, allmaps(db.locks.locks), allof(db.locks.locks[""].ref), mine, openedAs, elems(buf), db.fch.toks, allmaps(db.fch.toks), db.fch.ch.tok, db.fch.ch.order, db.fch.ch.pcg.*, map(db.fch.ch.handles), allelems(db.fch.ch.order)
  traces lockPool.Lock as lk, lockPool.Unlock as ul, files.newMetric as nm, metric.Read as rd
  at before newMetric assert own: lockedFor(db.locks, metric)
  at before metric.Read assert own: lockedFor(db.locks, metric)
  ensures ncalls(rd) <= 1 && (ncalls(rd) == 1 ==> arg(rd, 1, 0) == end && arg(rd, 2, 0) == buf && err == res(rd, 0, 0)) && (ncalls(rd) == 0 ==> err != nil)
  ensures ncalls(lk) == 1 && ncalls(ul) == 1 && lpMine[db.locks][metric] == 0
  ensures forall s *lockPoolState :: {held(s.mu)} !held(s.mu)

fn (*DB).QueryLatest(db, ctx, metric, buf) (start, end, data, err)
  requires ctx != nil && wfDB(db) && noLocks(db.locks) && len(metric) <= 0x3fffffffff
  modifies held, lpMine, lpState, db.locks.locks, allmaps(db.locks.locks), allof(db.locks.locks[""].ref), mine, openedAs, elems(buf), db.fch.toks, allmaps(db.fch.toks), db.fch.ch.tok, db.fch.ch.order, db.fch.ch.pcg.*, map(db.fch.ch.handles), allelems(db.fch.ch.order)
  traces lockPool.Lock as lk, lockPool.Unlock as ul, metric.ReadLast as rd
  at before newMetric assert own: lockedFor(db.locks, metric)
  at before metric.ReadLast assert own: lockedFor(db.locks, metric)
  ensures ncalls(lk) == 1 && ncalls(ul) == 1 && lpMine[db.locks][metric] == 0
  ensures forall s *lockPoolState :: {held(s.mu)} !held(s.mu)
  ensures ncalls(rd) <= 1 && (ncalls(rd) == 1 ==> arg(rd, 1, 0) == buf && err == res(rd, 3, 0) && start == res(rd, 0, 0) && end == res(rd, 1, 0) && data == res(rd, 2, 0)) && (ncalls(rd) == 0 ==> err != nil)
