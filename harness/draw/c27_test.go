package graph_test

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/draw/heatmap"
	"github.com/vivint/rothko/draw/key"
)

// scene makes an image of random bytes and a view into it.
func scene(h *vh) (whole *draw.RGB, view *draw.RGB, desc string) {
	vw, vh := h.r.Intn(40), h.r.Intn(40)
	if h.r.Intn(4) == 0 {
		vh = h.r.Intn(3)
	}
	if h.r.Intn(6) == 0 {
		vh = 100 + h.r.Intn(400)
	}
	x, y := h.r.Intn(5), h.r.Intn(5)
	whole = draw.NewRGB(x+vw+h.r.Intn(5), y+vh+h.r.Intn(5))
	for i := range whole.Pix {
		whole.Pix[i] = uint8(h.r.Intn(256))
	}
	view = whole.View(x, y, vw, vh)
	return whole, view, fmt.Sprintf("view %dx%d at %d,%d of %dx%d", vw, vh, x, y, whole.Width, whole.Height)
}

// colours makes colours that are all different.
func colours(h *vh) (out []draw.Color) {
	n := 1 + h.r.Intn(8)
	if h.r.Intn(4) == 0 {
		n = 256
	}
	for i := 0; i < n; i++ {
		out = append(out, draw.Color{R: uint8(i), G: uint8(h.r.Intn(256)), B: uint8(255 - i)})
	}
	return out
}

// index gives the index a row y of n may show of m, if it runs from the first to the last.
func indexes(y, n, m int) (int, int) {
	if n <= 1 {
		return 0, 0
	}
	p := y * (m - 1)
	if p%(n-1) == 0 && p > 0 {
		return p/(n-1) - 1, p / (n - 1)
	}
	return p / (n - 1), p / (n - 1)
}

func pixel(whole *draw.RGB, x, y int) []uint8 {
	i := y*whole.Stride + 4*x
	return whole.Pix[i : i+4]
}

func sameOutside(h *vh, before []uint8, whole *draw.RGB, x0, y0, x1, y1 int) string {
	for y := 0; y < whole.Height; y++ {
		for x := 0; x < whole.Width; x++ {
			if x >= x0 && x < x1 && y >= y0 && y < y1 {
				continue
			}
			i := y*whole.Stride + 4*x
			if !bytes.Equal(before[i:i+4], whole.Pix[i:i+4]) {
				return fmt.Sprintf("pixel %d,%d changed from %v to %v", x, y, before[i:i+4], whole.Pix[i:i+4])
			}
		}
	}
	return ""
}

func TestVerifC27Pixel(t *testing.T) {
	h := vhNew(t, 10)
	for h.more(100) {
		whole, view, desc := scene(h)
		if view.Width == 0 || view.Height == 0 {
			continue
		}
		x, y := h.r.Intn(view.Width), h.r.Intn(view.Height)
		c := draw.Color{R: uint8(h.r.Intn(256)), G: uint8(h.r.Intn(256)), B: uint8(h.r.Intn(256))}
		desc = fmt.Sprintf("%s, pixel %d,%d", desc, x, y)
		before := append([]uint8(nil), whole.Pix...)
		if !h.noPanic("set", func() string { return desc }, func() { view.Set(x, y, c) }) {
			break
		}
		if m := sameOutside(h, before, whole, x+view.X, y+view.Y, x+view.X+1, y+view.Y+1); m != "" {
			h.fail("set", "%s: %s", desc, m)
		}
		want := []uint8{c.R, c.G, c.B, 255}
		if got := pixel(whole, x+view.X, y+view.Y); !bytes.Equal(got, want) {
			h.fail("set", "%s: is %v after %v was set", desc, got, want)
		}
		raw := view.Raw(x, y)
		if !bytes.Equal(raw, want) {
			h.fail("raw", "%s: raw gives %v after %v was set", desc, raw, want)
		}
		for i := range raw {
			raw[i]++
		}
		if got := pixel(whole, x+view.X, y+view.Y); len(raw) != 4 || !bytes.Equal(got, raw) {
			h.fail("raw", "%s: raw %v is not the pixel %v", desc, raw, got)
		}
		if m := sameOutside(h, before, whole, x+view.X, y+view.Y, x+view.X+1, y+view.Y+1); m != "" {
			h.fail("raw", "%s: writing to raw: %s", desc, m)
		}
		if w, hh := view.Size(); w != view.Width || hh != view.Height {
			h.fail("size", "%s: size %d %d", desc, w, hh)
		}
		h.did("%s", desc)
	}
	h.done()
}

// plain is a canvas that is no RGB.
type plain struct {
	w, h int
	set  map[[2]int]draw.Color
	bad  string
}

func (p *plain) Size() (int, int) { return p.w, p.h }
func (p *plain) Set(x, y int, c draw.Color) {
	if x < 0 || y < 0 || x >= p.w || y >= p.h {
		p.bad = fmt.Sprintf("pixel %d,%d of a canvas of %dx%d is set", x, y, p.w, p.h)
	}
	p.set[[2]int{x, y}] = c
}

func TestVerifC27Heatmap(t *testing.T) {
	h := vhNew(t, 40)
	for h.more(200) {
		whole, view, desc := scene(h)
		cs := colours(h)
		var data []float64
		n := 1 + h.r.Intn(6)
		if h.r.Intn(4) == 0 {
			n = 1 + h.r.Intn(300)
		}
		for i := 0; i < n; i++ {
			data = append(data, h.r.Float64())
		}
		sort.Float64s(data)
		mode := h.r.Intn(4)
		fn := func(x float64) float64 {
			switch {
			case mode == 1:
				return 3*x - 1
			case mode == 2 && x < 0.2:
				return math.NaN()
			case mode == 3:
				return math.Round(x)
			}
			return x
		}
		tint := func(i int) draw.Color {
			v := fn(data[i])
			if !(v > 0) {
				v = 0
			}
			if v > 1 {
				v = 1
			}
			return cs[int(v*float64(len(cs)-1))]
		}
		x := h.r.Intn(view.Width + 1)
		w := h.r.Intn(view.Width - x + 1)
		if h.r.Intn(2) == 0 {
			w = view.Width - x
		}
		desc = fmt.Sprintf("%s, column %d+%d of %d values, %d colours, mapping %d", desc, x, w, n, len(cs), mode)
		other := h.r.Intn(3) == 0
		var canvas draw.Canvas = view
		pl := &plain{w: view.Width, h: view.Height, set: map[[2]int]draw.Color{}}
		if other {
			canvas, desc = pl, desc+", other canvas"
		}
		before := append([]uint8(nil), whole.Pix...)
		if !h.noPanic("heatmap", func() string { return desc }, func() {
			hm := heatmap.New(heatmap.Options{Colors: cs, Canvas: canvas, Map: fn})
			hm.Draw(context.Background(), draw.Column{X: x, W: w, Data: data})
		}) {
			break
		}
		if pl.bad != "" {
			h.fail("heatmap-range", "%s: %s", desc, pl.bad)
		}
		if other {
			if len(pl.set) != w*view.Height {
				h.fail("heatmap-range", "%s: %d pixels are set", desc, len(pl.set))
			}
			for p, c := range pl.set {
				ok := p[0] >= x && p[0] < x+w
				some := false
				for _, d := range cs {
					some = some || c == d
				}
				if !ok || !some {
					h.fail("heatmap-range", "%s: pixel %v gets %v", desc, p, c)
				}
			}
			h.did("%s", desc)
			continue
		}
		if m := sameOutside(h, before, whole, x+view.X, view.Y, x+w+view.X, view.Y+view.Height); m != "" {
			h.fail("heatmap-range", "%s: %s", desc, m)
		}
		for y := 0; y < view.Height && h.bad == 0; y++ {
			lo, hi := indexes(y, view.Height, n)
			for i := x; i < x+w; i++ {
				p := pixel(whole, i+view.X, view.Y+view.Height-1-y)
				c := draw.Color{R: p[0], G: p[1], B: p[2]}
				if p[3] != 255 || c != tint(lo) && c != tint(hi) {
					h.fail("heatmap-colour", "%s: row %d from the bottom is %v, value %d has %v", desc, y, p, hi, tint(hi))
					break
				}
			}
		}
		h.did("%s", desc)
	}
	h.done()
}

func TestVerifC27Key(t *testing.T) {
	h := vhNew(t, 20)
	for h.more(100) {
		whole, view, desc := scene(h)
		cs := colours(h)
		w, hh := view.Width, view.Height
		if h.r.Intn(3) == 0 {
			w, hh = h.r.Intn(w+2), h.r.Intn(hh+2)
		}
		in := view
		if h.r.Intn(6) == 0 {
			in = nil
		}
		desc = fmt.Sprintf("%s, key %dx%d of %d colours, no canvas %v", desc, w, hh, len(cs), in == nil)
		before := append([]uint8(nil), whole.Pix...)
		var out *draw.RGB
		if !h.noPanic("key", func() string { return desc }, func() {
			out = key.Draw(in, key.Options{Colors: cs, Width: w, Height: hh})
		}) {
			break
		}
		big := in != nil && w <= view.Width && hh <= view.Height
		if !big {
			if !bytes.Equal(before, whole.Pix) {
				h.fail("key-range", "%s: the canvas is too small but changed", desc)
			}
			if out == nil && (w > 0 || hh > 0) || out != nil && (out.Width < w || out.Height < hh) {
				h.fail("key-range", "%s: made %v", desc, out)
			}
		} else {
			if out != in {
				h.fail("key-range", "%s: another canvas is used", desc)
			}
			if m := sameOutside(h, before, whole, view.X, view.Y, view.X+w, view.Y+hh); m != "" {
				h.fail("key-range", "%s: %s", desc, m)
			}
		}
		for y := 0; y < hh && h.bad == 0; y++ {
			lo, hi := indexes(hh-1-y, hh, len(cs))
			for x := 0; x < w; x++ {
				p := out.Raw(x, y)
				c := draw.Color{R: p[0], G: p[1], B: p[2]}
				if c != cs[lo] && c != cs[hi] || p[3] != 255 {
					h.fail("key-colour", "%s: row %d is %v, colour %d is %v", desc, y, p, hi, cs[hi])
					break
				}
			}
		}
		h.did("%s", desc)
	}
	h.done()
}

func TestVerifC27Graph(t *testing.T) {
	h := vhNew(t, 30)
	for h.more(60) {
		opts := graph.MeasureOptions{
			Now:      h.r.Int63n(1 << 62),
			Duration: time.Duration(1 + h.r.Int63n(int64(1)<<uint(1+h.r.Intn(60)))),
			Width:    h.r.Intn(400), Height: h.r.Intn(200), Padding: h.r.Intn(20),
		}
		if h.r.Intn(2) == 0 {
			opts.Now, opts.Duration = 1600000000e9+h.r.Int63n(1e15), time.Duration(h.r.Intn(200))*time.Hour
			if h.r.Intn(3) == 0 {
				opts.Duration = 0
			}
		}
		// no graph of millions of labels
		if opts.Duration/time.Hour > 1000000 {
			continue
		}
		var d dist.Dist
		seen := 0
		if h.r.Intn(3) > 0 {
			d, _ = tdigest.Params{Compression: 5}.New()
			for seen = h.r.Intn(6); seen > 0; seen-- {
				d.Observe(h.r.NormFloat64() * math.Pow(10, float64(h.r.Intn(9))))
			}
			opts.Earliest = d
		}
		desc := fmt.Sprintf("graph %dx%d+%d now %d duration %v distribution %v", opts.Width, opts.Height, opts.Padding, opts.Now, opts.Duration, opts.Earliest != nil)
		var m graph.Measured
		var ok bool
		if !h.noPanic("graph", func() string { return "measure " + desc }, func() {
			m, ok = graph.Measure(context.Background(), opts)
		}) {
			break
		}
		if !ok {
			if opts.Width >= 390 && opts.Height >= 150 {
				h.fail("graph", "%s does not fit", desc)
			}
			h.did("small %s", desc)
			continue
		}
		if m.Width < 1 || m.Width > opts.Width || m.Height < 1 {
			h.fail("graph", "%s: measured %dx%d", desc, m.Width, m.Height)
		}
		var cols []draw.Column
		for x := m.Width; x > 0; {
			w := h.r.Intn(x) + 1
			x -= w
			var data []float64
			for i := 1 + h.r.Intn(4); i > 0; i-- {
				data = append(data, h.r.NormFloat64()*math.Pow(10, float64(h.r.Intn(9))))
			}
			sort.Float64s(data)
			cols = append(cols, draw.Column{X: x, W: w, Data: data, ObsSec: h.r.Float64()})
			if h.r.Intn(4) == 0 {
				x -= h.r.Intn(x + 1)
			}
		}
		var canvas *draw.RGB
		W, H := opts.Width+2*opts.Padding, opts.Height+2*opts.Padding
		switch h.r.Intn(3) {
		case 0:
			canvas = draw.NewRGB(W+h.r.Intn(3), H+h.r.Intn(3))
		case 1:
			canvas = draw.NewRGB(h.r.Intn(W+1), h.r.Intn(H+1))
		}
		var out *draw.RGB
		if !h.noPanic("graph", func() string { return "draw " + desc }, func() {
			out = m.Draw(context.Background(), graph.DrawOptions{Canvas: canvas, Columns: cols, Colors: colors.Viridis})
		}) {
			break
		}
		if canvas != nil && canvas.Width >= W && canvas.Height >= H {
			if out != canvas {
				h.fail("graph", "%s: a large enough canvas is not used", desc)
			}
		} else if out == nil || out.Width != W || out.Height != H {
			h.fail("graph", "%s: made another image", desc)
		}
		// the columns are where the measured sizes say
		for _, c := range cols {
			if opts.Earliest == nil || h.bad > 0 {
				break
			}
			for y := 0; y < m.Height; y++ {
				p := out.Raw(m.X+c.X, m.Y+y)
				in := false
				for _, k := range colors.Viridis {
					in = in || k == draw.Color{R: p[0], G: p[1], B: p[2]}
				}
				if !in {
					h.fail("graph", "%s: pixel %d,%d of the heatmap is %v", desc, c.X, y, p)
					break
				}
			}
		}
		h.did("%s", desc)
	}
	h.done()
}
