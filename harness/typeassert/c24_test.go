package typeassert

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
)

type vD = map[string]interface{}
type vL = []interface{}

func vGen(h *vh, depth int) interface{} {
	switch h.r.Intn(13) {
	case 0:
		return nil
	case 1:
		return h.r.Intn(5) - 2
	case 2:
		return int64(h.r.Intn(5) - 2)
	case 3:
		return []string{"", "a", "x"}[h.r.Intn(3)]
	case 4:
		return h.r.Intn(2) == 0
	case 5:
		return []float64{0, 1.5, math.Inf(1), -2}[h.r.Intn(4)]
	case 6:
		return []interface{}{int32(3), uint(4), map[string]string{"a": "b"}, []string{"q"}, []int{1}, vD(nil), vL(nil), float32(1), (*int)(nil), map[interface{}]interface{}{"a": 1}}[h.r.Intn(10)]
	case 7, 8, 9:
		if depth == 0 {
			return 1
		}
		m := vD{}
		for i := h.r.Intn(4); i > 0; i-- {
			m[[]string{"a", "b", "", "c.d"}[h.r.Intn(4)]] = vGen(h, depth-1)
		}
		return m
	default:
		if depth == 0 {
			return "leaf"
		}
		l := vL{}
		for i := h.r.Intn(4); i > 0; i-- {
			l = append(l, vGen(h, depth-1))
		}
		return l
	}
}

// model of one asserter: its value, sharing one failed flag.
type vNode struct {
	a *Asserter
	x interface{}
}

func TestVerifAssert(t *testing.T) {
	h := vhNew(t, 100)
	defer h.done()
	for h.more(3000) {
		x := vGen(h, 4)
		tr := []string{fmt.Sprintf("A(%#v)", x)}
		desc := func() string { return strings.Join(tr, " ") }
		h.noPanic("panic", desc, func() {
			root := A(x)
			other := A(vD{"a": 1})
			nodes := []vNode{{root, x}}
			var first error
			failed := false
			for i := h.r.Intn(14); i >= 0 && h.bad == 0; i-- {
				k := h.r.Intn(len(nodes))
				if h.r.Intn(2) == 0 {
					k = len(nodes) - 1
				}
				n := nodes[k]
				var got, want interface{}
				typed := true
				bad := false
				switch op := h.r.Intn(11); op {
				case 0, 1, 2:
					key := []string{"a", "b", "", "c.d"}[h.r.Intn(4)]
					tr = append(tr, fmt.Sprintf("n%d=n%d.I(%q)", len(nodes), k, key))
					r := n.a.I(key)
					m, ok := n.x.(vD)
					nx := interface{}(nil)
					if ok {
						nx = m[key]
					}
					bad = n.x != nil && !ok
					if !failed && !bad {
						nodes = append(nodes, vNode{r, nx})
						if !reflect.DeepEqual(r.V(), nx) {
							h.fail("value", "%s gives %#v, want %#v", desc(), r.V(), nx)
						}
					} else {
						nodes = append(nodes, vNode{r, nil})
					}
					typed = false
				case 3, 4, 5:
					idx := h.r.Intn(6) - 2
					if h.r.Intn(20) == 0 {
						idx = math.MinInt64 + h.r.Intn(2)
					}
					tr = append(tr, fmt.Sprintf("n%d=n%d.N(%d)", len(nodes), k, idx))
					r := n.a.N(idx)
					l, ok := n.x.(vL)
					bad = n.x != nil && (!ok || idx < 0 || idx >= len(l))
					if !failed && !bad {
						nx := interface{}(nil)
						if ok {
							nx = l[idx]
						}
						nodes = append(nodes, vNode{r, nx})
						if !reflect.DeepEqual(r.V(), nx) {
							h.fail("value", "%s gives %#v, want %#v", desc(), r.V(), nx)
						}
					} else {
						nodes = append(nodes, vNode{r, nil})
					}
					typed = false
				case 6:
					v, ok := n.x.(int)
					got, want, bad = interface{}(n.a.Int()), v, n.x != nil && !ok
				case 7:
					v, ok := n.x.(int64)
					got, want, bad = interface{}(n.a.Int64()), v, n.x != nil && !ok
				case 8:
					v, ok := n.x.(string)
					got, want, bad = interface{}(n.a.String()), v, n.x != nil && !ok
				case 9:
					v, ok := n.x.(bool)
					got, want, bad = interface{}(n.a.Bool()), v, n.x != nil && !ok
				case 10:
					v, ok := n.x.(float64)
					got, want, bad = interface{}(n.a.Float64()), v, n.x != nil && !ok
				}
				if typed {
					tr = append(tr, fmt.Sprintf("n%d.%T()", k, got))
					if failed || bad {
						want = reflect.Zero(reflect.TypeOf(got)).Interface()
					}
					if got != want {
						h.fail("value", "%s gives %#v, want %#v (failed before: %v)", desc(), got, want, failed)
					}
				}
				if failed && root.Err() != first {
					h.fail("err", "%s changes the error from %v to %v", desc(), first, root.Err())
				}
				if !failed && (root.Err() != nil) != bad {
					h.fail("err", "%s: Err %v, want an error: %v", desc(), root.Err(), bad)
				}
				if root.Err() != nil {
					failed, first = true, root.Err()
				}
				for _, n := range nodes {
					if n.a.Err() != root.Err() {
						h.fail("err", "%s: the error is not shared", desc())
					}
				}
				if other.Err() != nil || other.I("a").Int() != 1 {
					h.fail("err", "%s: a separate chain is affected: %v", desc(), other.Err())
				}
			}
		})
		h.did("%s", desc())
	}
}
