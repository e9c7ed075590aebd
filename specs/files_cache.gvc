package database/files

// order and handles describe the same entries
pred wfCache(c *cache) = c != nil && c.handles != nil && c.cap == cap(c.order) && len(c.order) <= c.cap && c.cap < 0x80000000
   && (forall i int :: {c.order[i]} 0 <= i && i < len(c.order) ==> has(c.handles, c.order[i]) && c.handles[c.order[i]].loc == i && c.handles[c.order[i]].tok == c.order[i] && c.order[i] <= c.tok)
   && (forall t cacheToken :: {has(c.handles, t)} has(c.handles, t) ==> 0 <= c.handles[t].loc && c.handles[t].loc < len(c.order) && c.order[c.handles[t].loc] == t)

// the files held: token -> file
spec inCache(c *cache, t cacheToken) bool = has(c.handles, t)
spec fileAt(c *cache, t cacheToken) file = c.handles[t].f

fn newCache(n) (c)
  requires 0 <= n && n < 0x80000000
  ensures wfCache(c) && fresh(c) && fresh(c.handles) && c.cap == n && len(c.order) == 0 && c.tok == 0
  ensures fresh(c.order)
  ensures forall t cacheToken :: {has(c.handles, t)} !has(c.handles, t)

fn (*cache).Take(c, tok) (f, ok)
  requires wfCache(c)
  modifies c.order, map(c.handles), elems(c.order)
  ensures wfCache(c)
  ensures ok == old(inCache(c, tok))
  ensures ok ==> f == old(fileAt(c, tok)) && len(c.order) == old(len(c.order)) - 1
  ensures !ok ==> c.order == old(c.order) && f.data == 0
  ensures arrof(c.order) == old(arrof(c.order))
  ensures forall t cacheToken :: {has(c.handles, t)} inCache(c, t) == (old(inCache(c, t)) && t != tok)
  ensures forall t cacheToken :: {c.handles[t]} inCache(c, t) ==> fileAt(c, t) == old(fileAt(c, t))

fn (*cache).Put(c, f) (t, e, o)
  requires wfCache(c) && c.tok < 0x7fffffffffffffff
  modifies c.tok, c.order, c.pcg.*, map(c.handles), elems(c.order)
  ensures wfCache(c) && arrof(c.order) == old(arrof(c.order))
  ensures t == old(c.tok) + 1 && c.tok == t && !old(inCache(c, t))
  ensures o == (old(len(c.order)) >= c.cap)
  ensures len(c.order) == ite(o, old(len(c.order)), old(len(c.order)) + 1)
  ensures c.cap == 0 ==> e == f && (forall u cacheToken :: {has(c.handles, u)} !inCache(c, u))
  ensures c.cap > 0 ==> inCache(c, t) && fileAt(c, t) == f
  ghost out cacheToken = 0
  at after fastMod set out := c.order[$r0]
  ensures c.cap > 0 && !o ==> forall u cacheToken :: {has(c.handles, u)} inCache(c, u) == (old(inCache(c, u)) || u == t)
  ensures c.cap > 0 && o ==> old(inCache(c, out)) && e == old(fileAt(c, out))
  ensures c.cap > 0 && o ==> forall u cacheToken :: {has(c.handles, u)} inCache(c, u) == (old(inCache(c, u)) && u != out || u == t)
  ensures forall u cacheToken :: {c.handles[u]} inCache(c, u) && u != t ==> fileAt(c, u) == old(fileAt(c, u))

fn (*cache).TakeAll(c, cb)
  requires wfCache(c)
  modifies c.order, map(c.handles)
  loop 0
    invariant wfCache(c) && ncalls(cb) == old(len(c.order)) - len(c.order) && arrof(c.order) == old(arrof(c.order)) && off(c.order) == old(off(c.order)) && c.handles == old(c.handles)
    invariant forall i int :: {arg(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> arg(cb, 0, i) == old(fileAt(c, c.order[len(c.order) - 1 - i]))
    invariant forall i int :: {res(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> res(cb, 0, i)
    invariant forall t cacheToken :: {has(c.handles, t)} inCache(c, t) == (old(inCache(c, t)) && old(c.handles[t].loc) < len(c.order))
    invariant forall t cacheToken :: {c.handles[t]} inCache(c, t) ==> c.handles[t] == old(c.handles[t])
  ensures wfCache(c)
  ensures len(c.order) == old(len(c.order)) - ncalls(cb)
  ensures forall i int :: {arg(cb, 0, i)} 0 <= i && i < ncalls(cb) ==> arg(cb, 0, i) == old(fileAt(c, c.order[len(c.order) - 1 - i]))
  ensures forall i int :: {res(cb, 0, i)} 0 <= i && i < ncalls(cb) - 1 ==> res(cb, 0, i)
  ensures len(c.order) > 0 ==> ncalls(cb) > 0 && !res(cb, 0, ncalls(cb) - 1)
  ensures forall t cacheToken :: {has(c.handles, t)} inCache(c, t) == (old(inCache(c, t)) && old(c.handles[t].loc) < len(c.order))
  ensures forall t cacheToken :: {c.handles[t]} inCache(c, t) ==> fileAt(c, t) == old(fileAt(c, t))
