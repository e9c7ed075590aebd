package dump

// what is still awaited of a wait group
ghostvar wgN kmap[*sync.WaitGroup, int]

extern sync.(*WaitGroup).Add(w, n)
  modifies wgN
  ensures wgN == stored(old(wgN), w, old(wgN[w]) + n)
extern sync.(*WaitGroup).Done(w)
  requires wgN[w] > 0
  modifies wgN
  ensures wgN == stored(old(wgN), w, old(wgN[w]) - 1)
extern sync.(*WaitGroup).Wait(w)
  modifies wgN
  ensures wgN == stored(old(wgN), w, 0)

extern github.com/vivint/rothko/database.(Sink).Queue(db, ctx, metric, start, end, data, cb) (err)
  opts maycall=cb

pred poolOK() = (forall s []byte :: {pooled[arrof(s)]} pooled[arrof(s)] ==> allocated(s)) && !pooled[0]

fn New(opts) (d)
  ensures fresh(d) && d.opts.DB == opts.DB && d.opts.Period == opts.Period && d.opts.Bufsize == ite(opts.Bufsize == 0, 1024, opts.Bufsize)

fn (*Dumper).Dump(d, ctx, w)
  opts deadok
  requires d.opts.DB != nil && ctx != nil && w != nil && data.okWriter(w) && poolOK()
  modifies w.page, pooled, wgN, allelems(as(ctx, []byte))
  traces Sink.Queue as q, Pool.Get as get, Pool.Put as put, Record.MarshalTo as mt, agg.Finish as fin
  ghost finOf kmap[any, int]
  ghost queueOf kmap[any, int]
  ghost keyOf kmap[int, any]
  ghost stopped bool = false
  ghost completed mathint = 0
  ghost failed mathint = 0
  ghost enc string
  // a new wait group awaits nothing
  at entry assume forall w *sync.WaitGroup :: {wgN[w]} !allocated(w) ==> wgN[w] == 0
  // lengths of memory in use
  at after agg.Finish assume data.fitsInt($r1)
  at after agg.Finish set finOf := stored(finOf, $key, ncalls(fin) - 1)
  at after recv set stopped := true
  at after Record.MarshalTo assert whole: *recvof(mt, ncalls(mt)-1) == res(fin, 1, ncalls(fin)-1) && len(arg(mt, 0, ncalls(mt)-1)) == data.recSize(res(fin, 1, ncalls(fin)-1))
  at after Record.MarshalTo set enc := str(arg(mt, 0, ncalls(mt)-1))
  at before Sink.Queue assert encoding: ncalls(mt) == ncalls(q) + 1 && $4 == arg(mt, 0, ncalls(mt)-1) && str($4) == enc && !pooled[arrof($4)]
  at after Sink.Queue set queueOf := stored(queueOf, $key, ncalls(q) - 1)
  at after Sink.Queue set keyOf := stored(keyOf, ncalls(q) - 1, $key)
  at after Sink.Queue set failed := failed + ite($r0 == nil, 0, 1)
  at before completion set completed := completed + 1
  // a buffer goes back once the database is done with it or refused it
  at before Pool.Put assert own: $0 == box(arg(q, 4, ncalls(q)-1), []byte) && ncalls(put) == completed + failed - 1
  at before WaitGroup.Wait assert awaited: wgN[&wg] == ncalls(q) - completed - failed
  loop 0
    invariant !stopped && poolOK() && ncalls(mt) == ncalls(q) && ncalls(put) == completed + failed && completed + failed <= ncalls(q)
    invariant wgN[&wg] == ncalls(q) - completed - failed
    invariant forall k any :: {visited(k)} {finOf[k]} visited(k) ==> 0 <= finOf[k] && finOf[k] < ncalls(fin) && recvof(fin, finOf[k]) == as(smVal[&old(data.pageOf(w)).m][k], *data.agg)
    invariant forall k any :: {visited(k)} {queueOf[k]} visited(k) && res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= queueOf[k] && queueOf[k] < ncalls(q) && keyOf[queueOf[k]] == k
    invariant forall i int :: {keyOf[i]} 0 <= i && i < ncalls(q) ==> visited(keyOf[i]) && queueOf[keyOf[i]] == i && res(fin, 1, finOf[keyOf[i]]).Observations != 0
    invariant forall i int :: {keyOf[i]} {arg(q, 1, i)} 0 <= i && i < ncalls(q) ==> arg(q, 1, i) == as(keyOf[i], string)
    invariant forall i int :: {keyOf[i]} {arg(q, 2, i)} 0 <= i && i < ncalls(q) ==> arg(q, 2, i) == res(fin, 1, finOf[keyOf[i]]).StartTime
    invariant forall i int :: {keyOf[i]} {arg(q, 3, i)} 0 <= i && i < ncalls(q) ==> arg(q, 3, i) == res(fin, 1, finOf[keyOf[i]]).EndTime
    invariant forall s []byte :: {elems(s)} old(allocated(s) && !pooled[arrof(s)]) ==> !pooled[arrof(s)]
  ensures ncalls(put) == completed + failed
  ensures forall i int :: {keyOf[i]} 0 <= i && i < ncalls(q) ==> queueOf[keyOf[i]] == i && arg(q, 1, i) == as(keyOf[i], string) && arg(q, 2, i) == res(fin, 1, finOf[keyOf[i]]).StartTime && arg(q, 3, i) == res(fin, 1, finOf[keyOf[i]]).EndTime
  ensures old(w.page) != nil && !stopped ==> (forall k any :: {smDom[&old(data.pageOf(w)).m][k]} smDom[&old(data.pageOf(w)).m][k] ==> recvof(fin, finOf[k]) == as(smVal[&old(data.pageOf(w)).m][k], *data.agg) && (res(fin, 1, finOf[k]).Observations != 0 ==> 0 <= queueOf[k] && queueOf[k] < ncalls(q) && keyOf[queueOf[k]] == k))
