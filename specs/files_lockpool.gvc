package database/files

// what the running goroutine has locked: how many times each key, and through
// which state. Other goroutines have their own.
ghostvar lpMine kmap[*lockPool, kmap[string, mathint]]
ghostvar lpState kmap[*lockPool, kmap[string, *lockPoolState]]

monitor (lockPool).mu
  guards locks, allmaps(this.locks), allof(this.locks[""].ref)
  invariant live: this.locks != nil && (forall k string :: {has(this.locks, k)} has(this.locks, k) ==> this.locks[k] != nil && this.locks[k].ref >= 1)
  invariant own: forall a string, b string :: {this.locks[a], this.locks[b]} has(this.locks, a) && has(this.locks, b) && this.locks[a] == this.locks[b] ==> a == b
  invariant mine: forall k string :: {lpMine[this][k]} {has(this.locks, k)} lpMine[this][k] > 0 ==> has(this.locks, k) && this.locks[k] == lpState[this][k] && this.locks[k].ref >= lpMine[this][k]

fn newLockPool() (l)
  ensures fresh(l) && l.locks != nil && fresh(l.locks)
  ensures forall k string :: {has(l.locks, k)} !has(l.locks, k)

fn (*lockPool).Lock(l, key)
  opts locks=any
  requires !held(l.mu) && lpMine[l][key] == 0
  requires forall s *lockPoolState :: {held(s.mu)} !held(s.mu)
  modifies l.locks, allmaps(l.locks), allof(l.locks[""].ref), lpMine, lpState, held
  ghost before mathint = 0
  at after lock assume has(l.locks, key) ==> l.locks[key].ref < 0x7fffffffffffffff
  at before unlock set before := locked(ite(has(l.locks, key), l.locks[key].ref, 0))
  at before unlock set lpMine[l][key] := 1
  at before unlock set lpState[l][key] := l.locks[key]
  at before unlock assert counted: has(l.locks, key) && l.locks[key].ref == before + 1
  at before unlock assert others: forall k string :: {has(l.locks, k)} k != key ==> has(l.locks, k) == locked(has(l.locks, k)) && l.locks[k] == locked(l.locks[k]) && (has(l.locks, k) ==> l.locks[k].ref == locked(l.locks[k].ref))
  at before unlock assert shared: locked(has(l.locks, key)) ==> l.locks[key] == locked(l.locks[key])
  ensures lpMine[l][key] == 1
  ensures acquired(lpState[l][key].mu)
  ensures forall k string :: {lpMine[l][k]} k != key ==> lpMine[l][k] == old(lpMine[l][k]) && lpState[l][k] == old(lpState[l][k])
  ensures forall m *lockPool :: {lpMine[m]} m != l ==> lpMine[m] == old(lpMine[m]) && lpState[m] == old(lpState[m])

fn (*lockPool).Unlock(l, key)
  opts locks=any
  requires !held(l.mu) && lpMine[l][key] == 1 && held(lpState[l][key].mu)
  modifies l.locks, allmaps(l.locks), allof(l.locks[""].ref), lpMine, lpState, held
  ghost before mathint = 0
  at before unlock set before := locked(ite(has(l.locks, key), l.locks[key].ref, 0))
  at before unlock set lpMine[l][key] := 0
  at before unlock assert counted: ite(has(l.locks, key), l.locks[key].ref, 0) == before - 1
  at before unlock assert others: forall k string :: {has(l.locks, k)} k != key ==> has(l.locks, k) == locked(has(l.locks, k)) && l.locks[k] == locked(l.locks[k]) && (has(l.locks, k) ==> l.locks[k].ref == locked(l.locks[k].ref))
  at before unlock assert shared: before > 1 ==> has(l.locks, key) && l.locks[key] == locked(l.locks[key])
  ensures lpMine[l][key] == 0
  ensures released(old(lpState[l][key]).mu)
  ensures forall k string :: {lpMine[l][k]} k != key ==> lpMine[l][k] == old(lpMine[l][k]) && lpState[l][k] == old(lpState[l][k])
  ensures forall m *lockPool :: {lpMine[m]} m != l ==> lpMine[m] == old(lpMine[m]) && lpState[m] == old(lpState[m])
