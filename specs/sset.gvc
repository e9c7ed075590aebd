package database/files/internal/sset

// strictly increasing
pred sorted(s []string) = forall i int, j int :: {s[i], s[j]} 0 <= i && i < j && j < len(s) ==> s[i] < s[j]
pred inord(s []string, x string) = exists i int :: {s[i]} 0 <= i && i < len(s) && s[i] == x

pred wf(s *Set) = s != nil && s.set != nil && sorted(s.order)
   && (forall i int :: {s.order[i]} 0 <= i && i < len(s.order) ==> has(s.set, s.order[i]))
   && (forall x string :: {has(s.set, x)} has(s.set, x) ==> inord(s.order, x))

fn New(cap) (r)
  requires 0 <= cap && cap <= 0x80000000000
  ensures wf(r)
  ensures fresh(r)
  ensures fresh(r.set)
  ensures fresh(r.order)
  ensures len(r.order) == 0
  ensures forall x string :: {has(r.set, x)} !has(r.set, x)

fn (*Set).Len(s) (n)
  requires s != nil
  ensures n == len(s.order)

fn (*Set).Has(s, x) (r)
  requires wf(s)
  ensures r == has(s.set, x)
  ensures r == inord(s.order, x)

fn (*Set).Add(s, x)
  requires wf(s)
  modifies s.*, map(s.set), elems(s.order)
  ensures wf(s)
  ensures s.set == old(s.set)
  ensures fresh(s.order) || arrof(s.order) == old(arrof(s.order))
  ensures forall y string :: {has(s.set, y)} has(s.set, y) == (old(has(s.set, y)) || y == x)
  ensures len(s.order) == old(len(s.order)) + ite(old(has(s.set, x)), 0, 1)
  loop 0
    invariant 0 <= i && i <= j && j <= len(s.order)
    invariant forall k int :: {s.order[k]} 0 <= k && k < i ==> s.order[k] < x
    invariant forall k int :: {s.order[k]} j <= k && k < len(s.order) ==> x < s.order[k]
    decreases j - i
  at exit hint forall k int :: {old(s.order[k])} 0 <= k && k < i ==> s.order[k] == old(s.order[k])
  at exit hint forall k int :: {old(s.order[k])} i <= k && k < old(len(s.order)) && !old(has(s.set, x)) ==> s.order[k+1] == old(s.order[k])
  at exit hint old(has(s.set, x)) || s.order[i] == x

fn (*Set).Copy(s) (r)
  requires wf(s)
  ensures wf(r)
  ensures fresh(r)
  ensures fresh(r.set)
  ensures fresh(r.order)
  ensures len(r.order) == len(s.order)
  ensures forall i int :: {r.order[i]} 0 <= i && i < len(s.order) ==> r.order[i] == s.order[i]
  ensures forall x string :: {has(r.set, x)} {has(s.set, x)} has(r.set, x) == has(s.set, x)
  loop 0
    invariant out != nil && out.set != nil && fresh(out) && fresh(out.set) && fresh(out.order)
    invariant len(out.order) == $i
    invariant forall i int :: {out.order[i]} 0 <= i && i < $i ==> out.order[i] == s.order[i]
    invariant forall i int :: {s.order[i]} 0 <= i && i < $i ==> has(out.set, s.order[i])
    invariant forall x string :: {has(out.set, x)} has(out.set, x) ==> (exists i int :: {s.order[i]} 0 <= i && i < $i && s.order[i] == x)

fn (*Set).Merge(s, o)
  requires wf(s) && wf(o)
  requires o != s && o.set != s.set && arrof(o.order) != arrof(s.order)
  modifies s.*, map(s.set), elems(s.order)
  ensures wf(s) && s.set == old(s.set)
  ensures fresh(s.order) || arrof(s.order) == old(arrof(s.order))
  ensures forall y string :: {has(s.set, y)} has(s.set, y) == (old(has(s.set, y)) || has(o.set, y))

  loop 0
    invariant wf(s)
    invariant s.set == old(s.set)
    invariant fresh(s.order) || arrof(s.order) == old(arrof(s.order))
    invariant forall y string :: {has(s.set, y)} has(s.set, y) ==> old(has(s.set, y)) || has(o.set, y)
    invariant forall y string :: {old(has(s.set, y))} old(has(s.set, y)) ==> has(s.set, y)
    invariant forall i int :: {o.order[i]} 0 <= i && i < $i ==> has(s.set, o.order[i])

fn (*Set).Iter(s, cb)
  requires wf(s)
  loop 0
    invariant ncalls(cb) == $i
    invariant forall i int :: 0 <= i && i < $i ==> arg(cb, 0, i) == s.order[i] && res(cb, 0, i)
  ensures ncalls(cb) <= len(s.order)
  ensures forall i int :: 0 <= i && i < ncalls(cb) ==> arg(cb, 0, i) == s.order[i]
  ensures forall i int :: 0 <= i && i < ncalls(cb) - 1 ==> res(cb, 0, i)
  ensures ncalls(cb) < len(s.order) ==> ncalls(cb) > 0 && !res(cb, 0, ncalls(cb) - 1)
