package internal/junk

monitor (Flag).mu
  guards on

fn (*Flag).Start(f) (err)
  modifies f.on
  ensures err == nil ==> !locked(f.on) && f.on
  ensures err != nil ==> locked(f.on) && f.on

fn (*Flag).Stop(f)
  modifies f.on
  ensures !f.on

monitor (Launcher).mu
  guards queue

fn (*Launcher).Queue(l, fn)
  modifies l.queue, allelems(l.queue)
  ensures len(l.queue) == len(locked(l.queue)) + 1 && l.queue[len(l.queue)-1] == fn
  ensures forall k int :: {l.queue[k]} 0 <= k && k < len(locked(l.queue)) ==> l.queue[k] == locked(l.queue[k])

fn Launch(ctx, tasks) (err)
  trusted starts goroutines and waits for them; only the bounded harness runs it

fn (*Launcher).Run(l, ctx) (err)
  traces Launch
  modifies l.queue
  ensures locked(len(l.queue)) == len(arg(Launch, 1, 0)) && arg(Launch, 1, 0) == locked(l.queue) && ncalls(Launch) == 1
  ensures l.queue == nil && err == res(Launch, 0, 0)
