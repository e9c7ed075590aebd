package draw

// byte k of row r of an image whose rows are s bytes
opaque pos(s mathint, r mathint, k mathint) mathint = r * s + k

lemma posPos(s mathint, r mathint, k mathint)
  trigger pos(s, r, k)
  requires 0 <= s && 0 <= r && 0 <= k
  ensures 0 <= pos(s, r, k)

lemma posIn(s mathint, r mathint, k mathint, h mathint)
  requires 0 <= s && 0 <= r && r < h && 0 <= k && k <= s
  ensures 0 <= pos(s, r, k) && pos(s, r, k) <= h * s && (k < s ==> pos(s, r, k) < h * s)

lemma posUniq(s mathint, r mathint, k mathint, r2 mathint, k2 mathint)
  trigger pos(s, r, k), pos(s, r2, k2)
  requires 0 <= k && k < s && 0 <= k2 && k2 < s && pos(s, r, k) == pos(s, r2, k2)
  ensures r == r2 && k == k2

lemma posStep(s mathint, r mathint, k mathint, d mathint)
  ensures pos(s, r, k + d) == pos(s, r, k) + d

// the pixel x, y of a view at x0, y0 of an image is the four bytes from here
opaque px(s mathint, x0 mathint, y0 mathint, x mathint, y mathint) mathint = pos(s, y + y0, (x + x0) * 4)

lemma pxDistinct(s mathint, x0 mathint, y0 mathint, x mathint, y mathint, x2 mathint, y2 mathint)
  trigger px(s, x0, y0, x, y), px(s, x0, y0, x2, y2)
  requires 0 <= x0 && 0 <= y0 && 0 <= x && 0 <= x2 && 4 * (x + x0) + 4 <= s && 4 * (x2 + x0) + 4 <= s && (x != x2 || y != y2)
  ensures px(s, x0, y0, x, y) + 4 <= px(s, x0, y0, x2, y2) || px(s, x0, y0, x2, y2) + 4 <= px(s, x0, y0, x, y)
// a byte of a pixel is one of its row
lemma pxByte(s mathint, x0 mathint, y0 mathint, x mathint, y mathint, r mathint, k mathint)
  trigger px(s, x0, y0, x, y), pos(s, r, k)
  requires 0 <= x0 && 0 <= x && 4 * (x + x0) + 4 <= s && 0 <= k && k < s && px(s, x0, y0, x, y) <= pos(s, r, k) && pos(s, r, k) < px(s, x0, y0, x, y) + 4
  ensures r == y + y0 && 4 * (x + x0) <= k && k < 4 * (x + x0) + 4

lemma pxIn(s mathint, x0 mathint, y0 mathint, x mathint, y mathint, h mathint)
  requires 0 <= x0 && 0 <= y0 && 0 <= x && 0 <= y && y < h && 4 * (x + x0) + 4 <= s
  ensures 0 <= px(s, x0, y0, x, y) && px(s, x0, y0, x, y) + 4 <= (y0 + h) * s

lemma pxDef(s mathint, x0 mathint, y0 mathint, x mathint, y mathint)
  ensures px(s, x0, y0, x, y) == (y + y0) * s + 4 * (x + x0) && px(s, x0, y0, x + 1, y) == px(s, x0, y0, x, y) + 4

lemma rowIn(s mathint, x0 mathint, y0 mathint, x mathint, w mathint, r mathint, h mathint)
  requires 0 <= x0 && 0 <= y0 && 0 <= x && 0 <= w && 0 <= r && r < h && 4 * (x + w + x0) <= s
  ensures 0 <= (r + y0) * s && (r + y0) * s + 4 * (x + w + x0) <= (y0 + h) * s
  ensures px(s, x0, y0, x, r) == (r + y0) * s + 4 * (x + x0)

// y * (n / h) rounded, for y up to h, does not go past n
lemma scaledR(n mathint, h mathint, y mathint, q real)
  requires 0 <= n && n <= 1000000 && 1 <= h && h <= 1000000 && 0 <= y && y <= h && real(0.0) <= q && q <= real(n) / real(h) + real(0.0000001)
  ensures real(h) * q <= real(n) + real(0.2)
  ensures real(y) * q <= real(h) * q
  ensures real(0.0) <= real(y) * q && real(y) * q <= real(n) + real(0.2)

lemma scaled(n mathint, h mathint, y mathint)
  floats
  requires 0 <= n && n <= 1000000 && 1 <= h && h <= 1000000 && 0 <= y && y <= h
  using scaledR(n, h, y, real(f64(n) / f64(h)))
  ensures real(f64(n) / f64(h)) >= real(0.0)
  ensures real(f64(n) / f64(h)) <= real(n) / real(h) + real(0.0000001)
  ensures real(f64(y) * (f64(n) / f64(h))) >= real(0.0)
  ensures real(f64(y) * (f64(n) / f64(h))) < real(n + 1)
  ensures !isnan(f64(y) * (f64(n) / f64(h)))

lemma scaledZero(y mathint)
  floats
  requires 0 <= y && y <= 1000000
  ensures real(f64(y) * 0.0) == real(0.0) && !isnan(f64(y) * 0.0)

// a fraction of n does not go past it
lemma fractionR(n mathint, q real)
  requires 0 <= n && real(0.0) <= q && q <= real(1)
  ensures real(0.0) <= q * real(n) && q * real(n) <= real(n)
lemma fraction(n mathint, x float64)
  floats
  requires 0 <= n && n <= 1000000 && !isnan(x) && 0.0 <= x && x <= 1.0
  using fractionR(n, real(x))
  ensures real(x * f64(n)) >= real(0.0) && real(x * f64(n)) < real(n + 1) && !isnan(x * f64(n))

// all pixels of the view are inside the memory
pred inside(m *RGB) = 0 <= m.X && 0 <= m.Y && 0 <= m.Width && 0 <= m.Height && m.X <= 1000000 && m.Width <= 1000000 && m.Y <= 1000000 && m.Height <= 1000000 && 4 * (m.X + m.Width) <= m.Stride && m.Stride <= 100000000 && (m.Y + m.Height) * m.Stride <= len(m.Pix)

spec at(m *RGB, x mathint, y mathint) mathint = px(m.Stride, m.X, m.Y, x, y)

fn (*RGB).Size(m) (w, h)
  ensures w == m.Width && h == m.Height

fn (*RGB).Set(m, x, y, c)
  opts reveal=pos,px
  requires inside(m) && 0 <= x && x < m.Width && 0 <= y && y < m.Height
  modifies elems(m.Pix)
  at entry use pxIn(m.Stride, m.X, m.Y, x, y, m.Height)
  ensures m.Pix[at(m, x, y)] == c.R && m.Pix[at(m, x, y) + 1] == c.G && m.Pix[at(m, x, y) + 2] == c.B && m.Pix[at(m, x, y) + 3] == 255
  ensures forall i int :: {m.Pix[i]} {old(m.Pix[i])} (i < at(m, x, y) || at(m, x, y) + 4 <= i) ==> m.Pix[i] == old(m.Pix[i])

fn (*RGB).Raw(m, x, y) (r)
  opts reveal=pos,px
  requires inside(m) && 0 <= x && x < m.Width && 0 <= y && y < m.Height
  at entry use pxIn(m.Stride, m.X, m.Y, x, y, m.Height)
  ensures len(r) == 4 && arrof(r) == arrof(m.Pix) && off(r) == off(m.Pix) + at(m, x, y)

fn (RGB).View(m, x, y, w, h) (r)
  ensures fresh(r) && r.Pix == m.Pix && r.Stride == m.Stride && r.X == x && r.Y == y && r.Width == w && r.Height == h

extern bytes.Repeat(b, count) (r)
  requires count >= 0
  ensures fresh(r) && len(r) == len(b) * count && (len(b) == 1 ==> (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == b[0]))

fn NewRGB(w, h) (m)
  requires 0 <= w && w <= 1000000 && 0 <= h && h <= 1000000
  ensures fresh(m) && fresh(m.Pix) && inside(m) && m.X == 0 && m.Y == 0 && m.Width == w && m.Height == h && m.Stride == 4 * w && len(m.Pix) == 4 * w * h
  ensures forall i int :: {m.Pix[i]} 0 <= i && i < len(m.Pix) ==> m.Pix[i] == 255
