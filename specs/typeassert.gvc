package internal/typeassert

fn A(x) (r)
  ensures fresh(r) && r.x == x && r.path == "" && fresh(r.err) && *r.err == nil

fn (*Asserter).Err(a) (e)
  requires a.err != nil
  ensures e == *a.err

fn (*Asserter).V(a) (x)
  ensures x == a.x

fn (*Asserter).a(a, x, path) (r)
  ensures fresh(r) && r.x == x && r.err == a.err && r.path == a.path + path

fn (*Asserter).I(a, index) (r)
  requires a.err != nil
  modifies *a.err
  ensures r.err == old(a.err)
  ensures a.x == old(a.x) && a.err == old(a.err)
  ensures old(*a.err) != nil ==> r == a && *a.err == old(*a.err)
  ensures old(*a.err) == nil && a.x == nil ==> r.x == nil && *a.err == nil
  ensures old(*a.err) == nil && is(a.x, map[string]interface{}) ==> *a.err == nil && r.x == ite(as(a.x, map[string]interface{}) != nil && has(as(a.x, map[string]interface{}), index), as(a.x, map[string]interface{})[index], nil)
  ensures old(*a.err) == nil && a.x != nil && !is(a.x, map[string]interface{}) ==> *a.err != nil

fn (*Asserter).N(a, index) (r)
  requires a.err != nil
  modifies *a.err
  ensures r.err == old(a.err)
  ensures a.x == old(a.x) && a.err == old(a.err)
  ensures old(*a.err) != nil ==> r == a && *a.err == old(*a.err)
  ensures old(*a.err) == nil && a.x == nil ==> r.x == nil && *a.err == nil
  ensures old(*a.err) == nil && is(a.x, []interface{}) && 0 <= index && index < len(as(a.x, []interface{})) ==> *a.err == nil && r.x == as(a.x, []interface{})[index]
  ensures old(*a.err) == nil && is(a.x, []interface{}) && !(0 <= index && index < len(as(a.x, []interface{}))) ==> *a.err != nil
  ensures old(*a.err) == nil && a.x != nil && !is(a.x, []interface{}) ==> *a.err != nil

fn (*Asserter).Int(a) (r)
  requires a.err != nil
  modifies *a.err
  ensures old(*a.err) != nil ==> r == 0 && *a.err == old(*a.err)
  ensures old(*a.err) == nil ==> r == ite(is(a.x, int), as(a.x, int), 0) && ((*a.err == nil) == (a.x == nil || is(a.x, int)))

fn (*Asserter).Int64(a) (r)
  requires a.err != nil
  modifies *a.err
  ensures old(*a.err) != nil ==> r == 0 && *a.err == old(*a.err)
  ensures old(*a.err) == nil ==> r == ite(is(a.x, int64), as(a.x, int64), 0) && ((*a.err == nil) == (a.x == nil || is(a.x, int64)))

fn (*Asserter).String(a) (r)
  requires a.err != nil
  modifies *a.err
  ensures old(*a.err) != nil ==> r == "" && *a.err == old(*a.err)
  ensures old(*a.err) == nil ==> r == ite(is(a.x, string), as(a.x, string), "") && ((*a.err == nil) == (a.x == nil || is(a.x, string)))

fn (*Asserter).Bool(a) (r)
  requires a.err != nil
  modifies *a.err
  ensures old(*a.err) != nil ==> r == false && *a.err == old(*a.err)
  ensures old(*a.err) == nil ==> r == ite(is(a.x, bool), as(a.x, bool), false) && ((*a.err == nil) == (a.x == nil || is(a.x, bool)))

fn (*Asserter).Float64(a) (r)
  requires a.err != nil
  modifies *a.err
  ensures old(*a.err) != nil ==> r == 0.0 && *a.err == old(*a.err)
  ensures old(*a.err) == nil ==> r == ite(is(a.x, float64), as(a.x, float64), 0.0) && ((*a.err == nil) == (a.x == nil || is(a.x, float64)))
