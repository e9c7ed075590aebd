package draw/key

pred inside(m *draw.RGB) = draw.inside(m)

// the colour of row y of a key of h rows and n colours
recspec level(n mathint, h mathint, y mathint) mathint = f2i(f64(h - 1 - y) * ite(h > 1, f64(n - 1) / f64(h - 1), 0.0))
pred shown(m *draw.RGB, x mathint, y mathint, c draw.Color) = m.Pix[draw.at(m, x, y)] == c.R && m.Pix[draw.at(m, x, y) + 1] == c.G && m.Pix[draw.at(m, x, y) + 2] == c.B && m.Pix[draw.at(m, x, y) + 3] == 255

fn Draw(canvas, opts) (out)
  requires canvas != nil ==> inside(canvas)
  requires 1 <= len(opts.Colors) && len(opts.Colors) <= 1000000 && 0 <= opts.Width && opts.Width <= 1000000 && 0 <= opts.Height && opts.Height <= 1000000
  modifies elems(canvas.Pix)
  using draw.pxDistinct
  using draw.pxByte
  using draw.posPos
  ghost big bool = canvas != nil && canvas.Width >= opts.Width && canvas.Height >= opts.Height
  at loop 0 use draw.scaled(len(opts.Colors) - 1, opts.Height - 1, opts.Height - 1 - y)
  at loop 0 use draw.scaledZero(opts.Height - 1 - y)
  loop 0
    invariant canvas != nil ==> inside(canvas) && opts.Width <= canvas.Width && opts.Height <= canvas.Height && (!big ==> fresh(canvas) && fresh(canvas.Pix))
    invariant canvas == nil ==> opts.Width == 0 && opts.Height == 0
    invariant big ==> canvas == old(canvas)
    invariant levels: forall r int :: {level(len(opts.Colors), opts.Height, r)} 0 <= r && r < y ==> 0 <= level(len(opts.Colors), opts.Height, r) && level(len(opts.Colors), opts.Height, r) < len(opts.Colors)
    invariant colours: forall x int, r int :: {draw.at(canvas, x, r)} 0 <= x && x < opts.Width && 0 <= r && r < y ==> shown(canvas, x, r, opts.Colors[level(len(opts.Colors), opts.Height, r)])
    invariant rest: big ==> (forall r int, k int :: {draw.pos(canvas.Stride, r, k)} 0 <= r && 0 <= k && k < canvas.Stride && draw.pos(canvas.Stride, r, k) < len(canvas.Pix) && !(canvas.Y <= r && r < canvas.Y + opts.Height && 4 * canvas.X <= k && k < 4 * (canvas.X + opts.Width)) ==> canvas.Pix[draw.pos(canvas.Stride, r, k)] == old(canvas.Pix[draw.pos(canvas.Stride, r, k)]))
  loop 1
    invariant row: forall i int :: {draw.at(canvas, i, y)} 0 <= i && i < x ==> shown(canvas, i, y, color)
    invariant levels: forall r int :: {level(len(opts.Colors), opts.Height, r)} 0 <= r && r < y ==> 0 <= level(len(opts.Colors), opts.Height, r) && level(len(opts.Colors), opts.Height, r) < len(opts.Colors)
    invariant colours: forall i int, r int :: {draw.at(canvas, i, r)} 0 <= i && i < opts.Width && 0 <= r && r < y ==> shown(canvas, i, r, opts.Colors[level(len(opts.Colors), opts.Height, r)])
    invariant rest: big ==> (forall r int, k int :: {draw.pos(canvas.Stride, r, k)} 0 <= r && 0 <= k && k < canvas.Stride && draw.pos(canvas.Stride, r, k) < len(canvas.Pix) && !(canvas.Y <= r && r < canvas.Y + opts.Height && 4 * canvas.X <= k && k < 4 * (canvas.X + opts.Width)) ==> canvas.Pix[draw.pos(canvas.Stride, r, k)] == old(canvas.Pix[draw.pos(canvas.Stride, r, k)]))
  ensures out != nil ==> inside(out) && opts.Width <= out.Width && opts.Height <= out.Height
  ensures big ==> out == canvas
  ensures !big ==> (out == nil && opts.Width == 0 && opts.Height == 0 || fresh(out))
  ensures levels: forall r int :: {level(len(opts.Colors), opts.Height, r)} 0 <= r && r < opts.Height ==> 0 <= level(len(opts.Colors), opts.Height, r) && level(len(opts.Colors), opts.Height, r) < len(opts.Colors)
  ensures colours: forall x int, r int :: {draw.at(out, x, r)} 0 <= x && x < opts.Width && 0 <= r && r < opts.Height ==> shown(out, x, r, opts.Colors[level(len(opts.Colors), opts.Height, r)])
  ensures rest: big ==> (forall r int, k int :: {draw.pos(out.Stride, r, k)} 0 <= r && 0 <= k && k < out.Stride && draw.pos(out.Stride, r, k) < len(out.Pix) && !(out.Y <= r && r < out.Y + opts.Height && 4 * out.X <= k && k < 4 * (out.X + opts.Width)) ==> out.Pix[draw.pos(out.Stride, r, k)] == old(out.Pix[draw.pos(out.Stride, r, k)]))
