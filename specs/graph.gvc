package draw/graph

fn Measure(ctx, opts) (m, ok)
  trusted todo
  requires 0 <= opts.Width && opts.Width <= 10000 && 0 <= opts.Height && opts.Height <= 10000 && 0 <= opts.Padding && opts.Padding <= 1000
  requires 0 <= opts.Now && opts.Now <= 4611686018427387904 && 0 <= opts.Duration && opts.Duration <= 4611686018427387904
  ensures ok ==> m.opts == opts && 1 <= m.Width && m.Width <= opts.Width && 1 <= m.Height

fn (Measured).Draw(m, ctx, opts) (out)
  trusted todo
  ensures out != nil
