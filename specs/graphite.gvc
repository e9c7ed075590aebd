package listener/graphite

fn handleLine(ctx, w, line) (err)
  opts strfacts
  requires w != nil && data.okWriter(w)
  modifies smDom, smVal, w.page, allof(ptr(w, *data.agg).rec), allof(ptr(w, *data.agg).dist)
  ensures data.okWriter(w)
  traces Writer.Add as add
  ensures nfields(old(str(line)), " ") == 3 && floatOK(field(old(str(line)), " ", 1)) ==> err == nil && ncalls(add) == 1 && recvof(add, 0) == w && arg(add, 0, 0) == ctx && arg(add, 1, 0) == field(old(str(line)), " ", 0) && arg(add, 2, 0) == floatOf(field(old(str(line)), " ", 1)) && arg(add, 3, 0) == nil
  ensures !(nfields(old(str(line)), " ") == 3 && floatOK(field(old(str(line)), " ", 1))) ==> err != nil && ncalls(add) == 0

fn handleConn(ctx, w, conn) (err)
  requires conn != nil && w != nil && data.okWriter(w)
  modifies wgN, smDom, smVal, w.page, allof(ptr(w, *data.agg).rec), allof(ptr(w, *data.agg).dist)
  ensures data.okWriter(w)
  traces handleLine as line, Scanner.Scan as scan, Scanner.Bytes as bytes
  ensures ncalls(scan) == ncalls(line) + 1 && ncalls(bytes) == ncalls(line) && res(scan, 0, ncalls(line)) == false
  ensures forall k int :: {res(scan, 0, k)} 0 <= k && k < ncalls(line) ==> res(scan, 0, k)
  ensures forall k int :: {arg(line, 2, k)} 0 <= k && k < ncalls(line) ==> arg(line, 2, k) == res(bytes, 0, k)
  ensures forall k int :: {arg(line, 1, k)} 0 <= k && k < ncalls(line) ==> arg(line, 1, k) == w
  loop 0
    invariant data.okWriter(w)
    invariant ncalls(scan) == ncalls(line) && ncalls(bytes) == ncalls(line)
    invariant forall k int :: {res(scan, 0, k)} 0 <= k && k < ncalls(line) ==> res(scan, 0, k)
    invariant forall k int :: {arg(line, 2, k)} 0 <= k && k < ncalls(line) ==> arg(line, 2, k) == res(bytes, 0, k)
    invariant forall k int :: {arg(line, 1, k)} 0 <= k && k < ncalls(line) ==> arg(line, 1, k) == w
