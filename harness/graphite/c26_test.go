package graphite

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
)

// vParams makes distributions that record what they observe.
type vParams struct{}

func (vParams) Kind() string                        { return "v" }
func (vParams) New() (dist.Dist, error)             { return &vDist{}, nil }
func (vParams) Unmarshal([]byte) (dist.Dist, error) { return &vDist{}, nil }

type vDist struct{ vals []uint64 }

func (d *vDist) Kind() string              { return "v" }
func (d *vDist) Query(float64) float64     { return 0 }
func (d *vDist) CDF(float64) float64       { return 0 }
func (d *vDist) Len() int64                { return int64(len(d.vals)) }
func (d *vDist) Observe(v float64)         { d.vals = append(d.vals, math.Float64bits(v)) }
func (d *vDist) Marshal(buf []byte) []byte { return append(buf, fmt.Sprint(d.vals)...) }

type vConn struct {
	r *bytes.Reader
	net.Conn
}

func (c vConn) Read(b []byte) (int, error) { return c.r.Read(b) }

func (vConn) Close() error         { return nil }
func (vConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

func vCapture(w *data.Writer) map[string]string {
	got := map[string]string{}
	w.Capture(context.Background(), func(_ context.Context, m string, r data.Record) bool {
		if len(r.MinId) > 0 || len(r.MaxId) > 0 {
			m += " (with an id)"
		}
		got[m] = fmt.Sprintf("%d %s", r.Observations, r.Distribution)
		return true
	})
	return got
}

// model
type vModel struct{ vals map[string][]uint64 }

func (m *vModel) line(l string) bool {
	if strings.Count(l, " ") != 2 {
		return false
	}
	i := strings.IndexByte(l, ' ')
	j := strings.LastIndexByte(l, ' ')
	v, err := strconv.ParseFloat(l[i+1:j], 64)
	if err != nil {
		return false
	}
	if !math.IsNaN(v) && !math.IsInf(v, 0) {
		m.vals[l[:i]] = append(m.vals[l[:i]], math.Float64bits(v))
	}
	return true
}

func (m *vModel) out() map[string]string {
	o := map[string]string{}
	for k, v := range m.vals {
		o[k] = fmt.Sprintf("%d %v", len(v), v)
	}
	return o
}

func vLine(h *vh) string {
	names := []string{"a", "a.b", "test.foo", "", "é", "a\tb", "1", "x\x00y", strings.Repeat("n", 300)}
	nums := []string{"1", "0", "-1", "1.5", "1e3", "1e999", "-1e999", "1e-999", "NaN", "Inf", "-inf", "0x10", "0x1p-2", "1_000", "", "+3", ".5", "5.", "1e", "abc", "1,5", "123456789012345678901234567890", "1.7976931348623159e308", "4.9e-324", "\t1", "1\t", "--1", "16777217", "0.1", "3.4028236e38", "1e-46", "9007199254740993"}
	times := []string{"0", "123", "", "x", "1.5", "-1", "\t", "1\t2"}
	switch h.r.Intn(8) {
	case 0:
		return []string{"", " ", "  ", "   ", "a", "a 1", "a 1 2 3", " a 1 2", "a 1 2 ", "a  1 2", "a 1  2", "a\t1\t2", "a 1\t2"}[h.r.Intn(13)]
	case 1:
		b := make([]byte, h.r.Intn(20))
		for i := range b {
			b[i] = " a1.\t-e"[h.r.Intn(7)]
		}
		return string(b)
	}
	return names[h.r.Intn(len(names))] + " " + nums[h.r.Intn(len(nums))] + " " + times[h.r.Intn(len(times))]
}

func TestVerifLine(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	ctx := context.Background()
	for h.more(2000) {
		l := vLine(h)
		desc := func() string { return fmt.Sprintf("line %q", l) }
		m := &vModel{map[string][]uint64{}}
		want := m.line(l)
		w := data.NewWriter(vParams{})
		var err error
		buf := []byte(l)
		h.within(10*time.Second, "hang", desc, func() { err = handleLine(ctx, w, buf) })
		if h.bad > 0 {
			return
		}
		for i := range buf { // the line's memory is reused by the scanner
			buf[i] = 'Z'
		}
		if (err == nil) != want {
			h.fail("error", "%s: error %v, want valid=%v", desc(), err, want)
		}
		if got := vCapture(w); fmt.Sprint(got) != fmt.Sprint(m.out()) {
			h.fail("added", "%s: writer holds %q, want %q", desc(), got, m.out())
		}
		h.did("%q", l)
	}
}

func TestVerifConn(t *testing.T) {
	h := vhNew(t, 50)
	defer h.done()
	ctx := context.Background()
	for h.more(300) {
		m := &vModel{map[string][]uint64{}}
		var lines []string
		in := ""
		for i := h.r.Intn(12); i > 0; i-- {
			l := vLine(h)
			if h.r.Intn(60) == 0 {
				l = strings.Repeat("p", 5000) + " 1 2"
			}
			m.line(l)
			lines = append(lines, l)
			in += l
			if h.r.Intn(5) == 0 {
				in += "\r"
			}
			in += "\n"
		}
		if h.r.Intn(3) == 0 {
			in = strings.TrimSuffix(in, "\n")
		}
		desc := func() string { return fmt.Sprintf("connection with lines %q", lines) }
		w := data.NewWriter(vParams{})
		h.within(20*time.Second, "hang", desc, func() {
			if err := handleConn(ctx, w, vConn{r: bytes.NewReader([]byte(in))}); err != nil {
				h.fail("connection", "%s: error %v", desc(), err)
			}
		})
		if h.bad > 0 {
			return
		}
		if got := vCapture(w); fmt.Sprint(got) != fmt.Sprint(m.out()) {
			h.fail("added", "%s: writer holds %q, want %q", desc(), got, m.out())
		}
		h.did("%s", desc())
	}
}
