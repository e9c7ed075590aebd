package sset

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"
)

func vIter(s *Set) (out []string) {
	s.Iter(func(x string) bool { out = append(out, x); return true })
	return out
}

func vSorted(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// vCheck compares a set with a model.
func vCheck(h *vh, trace string, s *Set, m map[string]bool, univ []string) bool {
	want := vSorted(m)
	got := vIter(s)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		h.fail("iter", "after %s: Iter gives %q, want %q", trace, got, want)
		return false
	}
	if s.Len() != len(want) {
		h.fail("len", "after %s: Len %d, want %d", trace, s.Len(), len(want))
		return false
	}
	for _, u := range univ {
		if s.Has(u) != m[u] {
			h.fail("has", "after %s: Has(%q) = %v", trace, u, s.Has(u))
			return false
		}
	}
	for stop := 0; stop <= len(want); stop++ {
		var seen []string
		s.Iter(func(x string) bool { seen = append(seen, x); return len(seen) <= stop })
		n := stop + 1
		if n > len(want) {
			n = len(want)
		}
		if fmt.Sprintf("%q", seen) != fmt.Sprintf("%q", want[:n]) {
			h.fail("stop", "after %s: Iter stopped at call %d saw %q of %q", trace, stop+1, seen, want)
			return false
		}
	}
	return true
}

func TestVerifSset(t *testing.T) {
	h := vhNew(t, 100)
	defer h.done()
	univ := []string{"", "a", "b", "aa", "ab", "\x00", "a\x00", "\xff", "z", "m", "zz", "0", "é"}
	for h.more(2000) {
		n := h.r.Intn(14)
		caps := []int{0, 1, 2, 5, 100}
		type pair struct {
			s *Set
			m map[string]bool
		}
		var sets []pair
		var tr []string
		nu := 1 + h.r.Intn(len(univ))
		mk := func() {
			c := caps[h.r.Intn(len(caps))]
			tr = append(tr, fmt.Sprintf("s%d=New(%d)", len(sets), c))
			sets = append(sets, pair{New(c), map[string]bool{}})
		}
		ok := true
		desc := func() string { return strings.Join(tr, "; ") }
		h.within(10*time.Second, "hang", desc, func() {
			mk()
			for i := 0; i < n && ok; i++ {
				k := h.r.Intn(len(sets))
				p := sets[k]
				switch h.r.Intn(8) {
				case 0:
					tr = append(tr, fmt.Sprintf("s%d=s%d.Copy()", len(sets), k))
					m := map[string]bool{}
					for x := range p.m {
						m[x] = true
					}
					sets = append(sets, pair{p.s.Copy(), m})
				case 1:
					if len(sets) < 4 {
						mk()
					}
				case 2:
					j := h.r.Intn(len(sets))
					if j == k {
						continue
					}
					tr = append(tr, fmt.Sprintf("s%d.Merge(s%d)", k, j))
					p.s.Merge(sets[j].s)
					for x := range sets[j].m {
						p.m[x] = true
					}
				default:
					x := univ[h.r.Intn(nu)]
					tr = append(tr, fmt.Sprintf("s%d.Add(%q)", k, x))
					p.s.Add(x)
					p.m[x] = true
				}
				for _, q := range sets {
					ok = ok && vCheck(h, desc(), q.s, q.m, univ)
				}
			}
		})
		h.did("%s", desc())
	}
}
