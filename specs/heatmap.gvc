package draw/heatmap

// the data of row y from the bottom of a heatmap of h rows and n data
recspec level(n mathint, h mathint, y mathint) mathint = f2i(f64(y) * ite(h > 1, f64(n - 1) / f64(h - 1), 0.0))
// the colour of a mapped value
spec clamped(x float64) float64 = ite(!(x > 0.0), 0.0, ite(x > 1.0, 1.0, x))
recspec tint(x float64, n mathint) mathint = f2i(clamped(x) * f64(n - 1))

ufunc width(c draw.Canvas) mathint
ufunc height(c draw.Canvas) mathint
extern draw.(Canvas).Size(c) (w, h)
  ensures 0 <= w && w <= 1000000 && 0 <= h && h <= 1000000
  ensures is(c, *draw.RGB) ==> w == as(c, *draw.RGB).Width && h == as(c, *draw.RGB).Height
  ensures !is(c, *draw.RGB) ==> w == width(c) && h == height(c)
extern draw.(Canvas).Set(c, x, y, col)
  requires 0 <= x && x < width(c) && 0 <= y && y < height(c)

pred good(d *Heatmap) = 1 <= len(d.opts.Colors) && len(d.opts.Colors) <= 1000000 && d.color_scale == f64(len(d.opts.Colors) - 1)
  && d.opts.Canvas != nil && 0 <= d.height && d.height <= 1000000 && d.opts.Map != nil
  && (d.m != nil ==> draw.inside(d.m) && d.height == d.m.Height && d.width == d.m.Width)
  && (d.m == nil ==> !is(d.opts.Canvas, *draw.RGB) && d.width == width(d.opts.Canvas) && d.height == height(d.opts.Canvas))

fn New(opts) (d)
  requires opts.Canvas != nil && (is(opts.Canvas, *draw.RGB) ==> as(opts.Canvas, *draw.RGB) != nil && draw.inside(as(opts.Canvas, *draw.RGB))) && 1 <= len(opts.Colors) && len(opts.Colors) <= 1000000 && opts.Map != nil
  ensures fresh(d) && good(d) && d.opts == opts
  ensures is(opts.Canvas, *draw.RGB) ==> d.m == as(opts.Canvas, *draw.RGB)

pred shown(m *draw.RGB, x mathint, y mathint, c draw.Color) = m.Pix[draw.at(m, x, y)] == c.R && m.Pix[draw.at(m, x, y) + 1] == c.G && m.Pix[draw.at(m, x, y) + 2] == c.B && m.Pix[draw.at(m, x, y) + 3] == 255

fn (*Heatmap).Draw(d, ctx, col)
  requires good(d) && 0 <= col.X && 0 <= col.W && col.X + col.W <= d.width && 1 <= len(col.Data) && len(col.Data) <= 1000000
  opts deadok
  modifies elems(d.m.Pix)
  using draw.pxDistinct
  using draw.pxByte
  using draw.posPos
  ghost src kmap[int, int]
  ghost c int
  at loop 0 use draw.scaled(len(col.Data) - 1, d.height - 1, y)
  at loop 0 use draw.scaledZero(y)
  at after Map use draw.fraction(len(d.opts.Colors) - 1, clamped($r0))
  at before Map assert $0 == col.Data[level(len(col.Data), d.height, y)]
  at loop 0 use draw.rowIn(d.m.Stride, d.m.X, d.m.Y, col.X, col.W, d.height - 1 - y, d.height)
  at loopend 0 set src[y - 1] := ncalls(Map) - 1
  loop 0
    invariant last: last_index == -1 && y == 0 || 0 < y && 1 <= ncalls(Map) && last_index == level(len(col.Data), d.height, y - 1) && arg(Map, 0, ncalls(Map) - 1) == col.Data[last_index] && last_color == d.opts.Colors[tint(res(Map, 0, ncalls(Map) - 1), len(d.opts.Colors))]
    invariant levels: forall r int :: {level(len(col.Data), d.height, r)} {src[r]} 0 <= r && r < y ==> 0 <= level(len(col.Data), d.height, r) && level(len(col.Data), d.height, r) < len(col.Data) && 0 <= src[r] && src[r] < ncalls(Map) && arg(Map, 0, src[r]) == col.Data[level(len(col.Data), d.height, r)]
    invariant tints: forall k int :: {res(Map, 0, k)} 0 <= k && k < ncalls(Map) ==> 0 <= tint(res(Map, 0, k), len(d.opts.Colors)) && tint(res(Map, 0, k), len(d.opts.Colors)) < len(d.opts.Colors)
    invariant colours: d.m != nil ==> (forall x int, r int :: {draw.at(d.m, x, r)} col.X <= x && x < col.X + col.W && d.height - 1 - y < r && r < d.height ==> shown(d.m, x, r, d.opts.Colors[tint(res(Map, 0, src[d.height - 1 - r]), len(d.opts.Colors))]))
    invariant rest: d.m != nil ==> (forall r int, k int :: {draw.pos(d.m.Stride, r, k)} 0 <= r && 0 <= k && k < d.m.Stride && draw.pos(d.m.Stride, r, k) < len(d.m.Pix) && !(d.m.Y <= r && r < d.m.Y + d.height && 4 * (col.X + d.m.X) <= k && k < 4 * (col.X + col.W + d.m.X)) ==> d.m.Pix[draw.pos(d.m.Stride, r, k)] == old(d.m.Pix[draw.pos(d.m.Stride, r, k)]))
  loop 1
    invariant true
  at preloop 2 set c := 0
  at loop 2 use draw.pxDef(d.m.Stride, d.m.X, d.m.Y, col.X + c, d.height - 1 - y)
  at loopend 2 set c := c + 1
  loop 2
    invariant 0 <= c && c <= col.W && arrof(pix) == arrof(d.m.Pix) && off(pix) == off(d.m.Pix) + draw.px(d.m.Stride, d.m.X, d.m.Y, col.X + c, d.height - 1 - y) && len(pix) == 4 * (col.W - c)
    invariant row: forall x int, r int :: {draw.at(d.m, x, r)} r == d.height - 1 - y && col.X <= x && x < col.X + c ==> shown(d.m, x, r, last_color)
    invariant colours: forall x int, r int :: {draw.at(d.m, x, r)} col.X <= x && x < col.X + col.W && d.height - 1 - y < r && r < d.height ==> shown(d.m, x, r, d.opts.Colors[tint(res(Map, 0, src[d.height - 1 - r]), len(d.opts.Colors))])
    invariant rest: forall r int, k int :: {draw.pos(d.m.Stride, r, k)} 0 <= r && 0 <= k && k < d.m.Stride && draw.pos(d.m.Stride, r, k) < len(d.m.Pix) && !(d.m.Y <= r && r < d.m.Y + d.height && 4 * (col.X + d.m.X) <= k && k < 4 * (col.X + col.W + d.m.X)) ==> d.m.Pix[draw.pos(d.m.Stride, r, k)] == old(d.m.Pix[draw.pos(d.m.Stride, r, k)])
  loop 3
    invariant true
  ensures levels: forall r int :: {src[r]} 0 <= r && r < d.height ==> 0 <= src[r] && src[r] < ncalls(Map) && arg(Map, 0, src[r]) == col.Data[level(len(col.Data), d.height, r)] && 0 <= tint(res(Map, 0, src[r]), len(d.opts.Colors)) && tint(res(Map, 0, src[r]), len(d.opts.Colors)) < len(d.opts.Colors)
  ensures colours: d.m != nil ==> (forall x int, r int :: {draw.at(d.m, x, r)} col.X <= x && x < col.X + col.W && 0 <= r && r < d.height ==> shown(d.m, x, r, d.opts.Colors[tint(res(Map, 0, src[d.height - 1 - r]), len(d.opts.Colors))]))
  ensures rest: d.m != nil ==> (forall r int, k int :: {draw.pos(d.m.Stride, r, k)} 0 <= r && 0 <= k && k < d.m.Stride && draw.pos(d.m.Stride, r, k) < len(d.m.Pix) && !(d.m.Y <= r && r < d.m.Y + d.height && 4 * (col.X + d.m.X) <= k && k < 4 * (col.X + col.W + d.m.X)) ==> d.m.Pix[draw.pos(d.m.Stride, r, k)] == old(d.m.Pix[draw.pos(d.m.Stride, r, k)]))
