package database/files

// The arrays lying in a pool of byte slices: nobody uses those.
ghostvar pooled kmap[mathint, bool]

pred poolsOK() = (forall s []byte :: {pooled[arrof(s)]} pooled[arrof(s)] ==> allocated(s) && notMapped(s)) && !pooled[0]
pred inUse(s []byte) = arrof(s) != 0 && !pooled[arrof(s)]

// every pool here is one of byte slices; what comes out of it is nobody else's
extern sync.(*Pool).Get(p) (x)
  modifies pooled
  ensures is(x, []byte) && arrof(as(x, []byte)) != 0 && old(pooled[arrof(as(x, []byte))]) && !pooled[arrof(as(x, []byte))] && allocated(as(x, []byte))
  ensures pooled == stored(old(pooled), arrof(as(x, []byte)), false)
extern sync.(*Pool).Put(p, x)
  requires is(x, []byte) ==> inUse(as(x, []byte))
  modifies pooled
  ensures is(x, []byte) ==> pooled == stored(old(pooled), arrof(as(x, []byte)), true)

// what waits in a queue
pred queuedOK(v queuedValue) = inUse(v.data) && notMapped(v.data) && len(v.data) <= 0x7fffffffffff && len(v.metric) <= 0x3fffffffff

fn (*DB).Queue(db, ctx, metric, start, end, data, cb) (err)
  requires ctx != nil && poolsOK() && is(valueOf[&db.queue], chan queuedValue)
  requires (arrof(data) == 0 || inUse(data)) && len(data) <= 0x7fffffffffff && len(metric) <= 0x3fffffffff
  modifies pooled, allelems(data)
  traces Pool.Get as get, Pool.Put as put
  ghost sent mathint = 0
  // memory from the allocator or the pool is not a mapping of a file
  at before send:queuedValue assume notMapped($0.data)
  at before send:queuedValue set sent := sent + 1
  at before send:queuedValue assert args: $0.metric == metric && $0.start == start && $0.end == end && $0.done == cb
  at before send:queuedValue assert copy: str($0.data) == str(data)
  at before send:queuedValue assert own: queuedOK($0) && arrof($0.data) != arrof(data) && ncalls(put) == 0
  ensures err == nil && str(data) == old(str(data))
  ensures sent <= 1 && ncalls(get) == 1
  // taken by the queue, or answered here; the buffer goes back in the second case only
  ensures sent == 1 ==> ncalls(cb) == 0 && ncalls(put) == 0
  ensures sent == 0 ==> ncalls(put) == 1 && ncalls(cb) == ite(cb == nil, 0, 1)
  ensures ncalls(cb) == 1 ==> !arg(cb, 0, 0) && arg(cb, 1, 0) == nil
  // only memory of the pool is written to
  ensures forall s []byte :: {elems(s)} old(allocated(s) && !pooled[arrof(s)]) ==> elems(s) == old(elems(s))

pred keptOK() = forall s *sset.Set :: {kept[s]} kept[s] ==> s != nil && allocated(s) && sset.wf(s) && allocated(s.set) && allocated(s.order)

fn (*DB).worker(db, ctx, num, queue)
  requires ctx != nil && wfDB(db) && wfNames(db) && noLocks(db.locks) && 0 <= num && num < len(db.names_w)
  requires keptOK() && poolsOK()
  modifies held, lpMine, lpState, db.locks.locks, allmaps(db.locks.locks), allof(db.locks.locks[""].ref), mine, openedAs, db.fch.toks, allmaps(db.fch.toks), db.fch.ch.tok, db.fch.ch.order, db.fch.ch.pcg.*, map(db.fch.ch.handles), allelems(db.fch.ch.order)
  modifies valueOf, elems(db.names_w), allof(db.names_w[0].order), allof(db.names_w[0].set), allmaps(db.names_w[0].set), allelems(db.names_w[0].order)
  modifies pooled
  traces DB.write as wr, Pool.Put as put
  ghost taken mathint = 0
  ghost answers mathint = 0
  ghost cur queuedValue
  // what Queue proved when it sent the value
  at after recv:queuedValue assume queuedOK($r0)
  at after recv:queuedValue set cur := $r0
  at after recv:queuedValue set taken := taken + 1
  at after recv:queuedValue set answers := answers + ite($r0.done == nil, 0, 1)
  at before DB.write assert value: $1 == num && $2.metric == cur.metric && $2.start == cur.start && $2.end == cur.end && $2.data == cur.data && ncalls(wr) == taken - 1
  at before Pool.Put assert after: $0 == box(cur.data, []byte) && ncalls(wr) == taken && ncalls(put) == taken - 1
  at before done assert result: $0 == res(wr, 0, taken-1) && $1 == res(wr, 1, taken-1) && ncalls(wr) == taken && ncalls(put) == taken
  at after done assert whose: recvof(done, ncalls(done)-1) == cur.done
  loop 0
    invariant ncalls(wr) == taken && ncalls(put) == taken && ncalls(done) == answers
    invariant wfDB(db) && wfNames(db) && noLocks(db.locks) && keptOK() && poolsOK()
  // every value taken was written once, its buffer freed once and its callback called once
  ensures ncalls(wr) == taken && ncalls(put) == taken && ncalls(done) == answers

pred chanOK(db *DB) = is(valueOf[&db.queue], chan queuedValue)

fn (*DB).Run(db, ctx) (err)
  requires ctx != nil && wfDB(db) && poolsOK() && chanOK(db) && 0 <= db.opts.Tuning.Buffer && db.opts.Tuning.Buffer <= 0x7fffffff
  modifies db.running.on, valueOf, pooled, mine, db.fch.ch.tok, db.fch.ch.order, db.fch.ch.handles, db.fch.toks, allmaps(db.fch.toks), db.fch.ch.pcg.*, map(db.fch.ch.handles), allelems(db.fch.ch.order), allelems(as(ctx, *junk.Launcher).queue)
  traces Flag.Start as start, Flag.Stop as stop, Launcher.Run as run, Pool.Put as put, Value.Store as st, fileCache.Close as cl
  ghost taken mathint = 0
  ghost answers mathint = 0
  ghost closed mathint = 0
  ghost cur queuedValue
  // the queue that is closed is no longer the one given to callers of Queue
  at before close assert replaced: ncalls(run) == 1 && ncalls(st) == 1 && recvof(st, 0) == &db.queue && chanOK(db) && as(valueOf[&db.queue], chan queuedValue) != queue
  at before close set closed := closed + 1
  // what Queue proved when it sent the value
  at after recv:queuedValue assume queuedOK($r0)
  at after recv:queuedValue set cur := $r0
  at after recv:queuedValue set taken := taken + 1
  at after recv:queuedValue set answers := answers + ite($r0.done == nil, 0, 1)
  at before Pool.Put assert buffer: $0 == box(cur.data, []byte) && ncalls(put) == taken - 1
  at before done assert discarded: !$0 && $1 == nil && ncalls(put) == taken
  at after done assert whose: recvof(done, ncalls(done)-1) == cur.done
  loop 1
    invariant ncalls(put) == taken && ncalls(done) == answers
  ensures res(start, 0, 0) != nil ==> err != nil && ncalls(run) == 0 && ncalls(stop) == 0 && closed == 0 && ncalls(cl) == 0
  ensures res(start, 0, 0) == nil ==> ncalls(run) == 1 && ncalls(stop) == 1 && closed == 1 && ncalls(cl) == 1 && err == res(run, 0, 0)
  ensures ncalls(put) == taken && ncalls(done) == answers

extern syscall.Getrlimit(r, lim) (err)
  modifies *lim
  ensures lim.Cur < 0x7fffffff || lim.Cur == 0xffffffffffffffff
extern runtime.GOMAXPROCS(n) (r)
  ensures 1 <= r && r <= 0x7fffffff

fn New(dir, opts) (db)
  requires opts.Tuning.Workers >= 0 && opts.Tuning.Workers <= 0x7fffffff && 0 <= opts.Tuning.Buffer && opts.Tuning.Buffer <= 0x7fffffff && opts.Tuning.Handles <= 0x7fffffff
  modifies valueOf
  loop 0
    invariant forall k int :: {names_w[k]} 0 <= k && k < $i ==> names_w[k] != nil && sset.wf(names_w[k])
    invariant forall k int :: {names_w[k]} 0 <= k && k < $i ==> allocated(names_w[k]) && allocated(names_w[k].set) && (arrof(names_w[k].order) == 0 || allocated(names_w[k].order))
    invariant forall j int, k int :: {names_w[j], names_w[k]} 0 <= j && j < k && k < $i ==> sepSet(names_w[j], names_w[k])
  ensures fresh(db) && db.dir == dir && db.opts.Size == opts.Size && db.opts.Cap == opts.Cap && db.opts.Files == opts.Files && db.opts.Tuning.Buffer == opts.Tuning.Buffer && db.opts.Tuning.Drop == opts.Tuning.Drop
  ensures db.opts.Tuning.Workers == ite(opts.Tuning.Workers == 0, db.opts.Tuning.Workers, opts.Tuning.Workers) && db.opts.Tuning.Workers >= 1
  ensures wfNames(db) && len(db.names_w) == db.opts.Tuning.Workers && db.fch != nil && db.fch.ch != nil && db.locks != nil && !db.running.on
  ensures db.fch.opts.Size == opts.Size && db.fch.opts.Cap == opts.Cap && db.fch.opts.Handles == db.opts.Tuning.Handles && db.opts.Tuning.Handles >= 0
  ensures opts.Tuning.Handles > 0 ==> db.opts.Tuning.Handles == opts.Tuning.Handles
  ensures forall k int :: {db.names_w[k]} 0 <= k && k < len(db.names_w) ==> db.names_w[k] != nil && sset.wf(db.names_w[k])
  // every worker has its own set
  ensures forall j int, k int :: {db.names_w[j], db.names_w[k]} 0 <= j && j < k && k < len(db.names_w) ==> sepSet(db.names_w[j], db.names_w[k])
