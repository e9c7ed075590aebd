package query_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/vivint/rothko/api/query"
)

func qLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c - 'A' + 'a'
		}
	}
	return string(b)
}

// qGlob: the pattern matches a prefix of the name; a '*' needs a byte to stand
// at, even if it matches none.
func qGlob(p, s string) bool {
	s = qLower(s)
	var memo map[[2]int]bool = map[[2]int]bool{}
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if i >= len(p) {
			return true
		}
		if j >= len(s) {
			return false
		}
		k := [2]int{i, j}
		if v, ok := memo[k]; ok {
			return v
		}
		var v bool
		switch p[i] {
		case '*':
			v = rec(i+1, j) || rec(i, j+1)
		case '?':
			v = rec(i+1, j+1)
		default:
			v = p[i] == s[j] && rec(i+1, j+1)
		}
		memo[k] = v
		return v
	}
	return rec(0, 0)
}

func qMatch(q, metric string) bool {
	comps := strings.Split(metric, ".")
	for _, word := range strings.Fields(q) {
		parts := strings.Split(word, ".")
		found := false
		for k := 0; k+len(parts) <= len(comps) && !found; k++ {
			found = true
			for i, part := range parts {
				if !qGlob("*"+qLower(part), comps[k+i]) {
					found = false
					break
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func TestVerifC21(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(300) {
		alpha := []string{"ab", "aB", "abc", "ab.", "abAB.", "abc.*?", "aAzZ", "a\x80\xff[@`{"}[h.r.Intn(8)]
		name := func(max int) string {
			n := h.r.Intn(max + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = alpha[h.r.Intn(len(alpha))]
				if h.r.Intn(8) == 0 {
					b[i] = '.'
				}
			}
			return string(b)
		}
		word := func() string {
			n := 1 + h.r.Intn(7)
			b := make([]byte, n)
			for i := range b {
				switch h.r.Intn(6) {
				case 0:
					b[i] = '*'
				case 1:
					b[i] = '?'
				case 2:
					b[i] = "..ZA[@`{"[h.r.Intn(8)]
				default:
					b[i] = alpha[h.r.Intn(len(alpha))]
				}
			}
			return string(b)
		}
		q := ""
		if h.r.Intn(8) == 0 {
			q = " \t"
		}
		for i := h.r.Intn(4); i >= 0; i-- {
			if h.r.Intn(9) > 0 {
				q += word()
			}
			q += []string{" ", "  ", "\t", " \n "}[h.r.Intn(4)]
		}
		if h.r.Intn(2) == 0 {
			q = word()
		}
		capacity := h.r.Intn(8)
		switch h.r.Intn(20) {
		case 0:
			capacity = -1 - h.r.Intn(1000)
		case 1:
			capacity = 1 << 62
		}
		var names []string
		for i := h.r.Intn(20); i > 0; i-- {
			names = append(names, name(12))
		}
		if h.r.Intn(3) == 0 {
			names = append(names, strings.Repeat(name(3), 5)+name(4))
		}
		desc := func() string { return fmt.Sprintf("query %q, capacity %d, metrics %q", q, capacity, names) }
		want := []string{}
		hits := 0
		if !h.within(10*time.Second, "panic", desc, func() {
			s := query.New(q, capacity)
			for _, n := range names {
				exp := qMatch(q, n)
				if got := s.Match(n); got != exp {
					h.fail("match", "Match(%q) is %v with query %q", n, got, q)
					return
				}
				if exp {
					hits++
				}
				full := len(want) >= capacity
				more, err := s.Add(n)
				if more == full || err != nil {
					h.fail("stop", "Add(%q) returns %v, %v with %d of %d kept; %s", n, more, err, len(want), capacity, desc())
					return
				}
				if exp && !full {
					want = append(want, n)
				}
			}
			if got := s.Matched(); got == nil || !reflect.DeepEqual(got, want) {
				h.fail("matched", "found %q, want %q; %s", got, want, desc())
			}
		}) || h.bad > 0 {
			return
		}
		h.did("%q %d %d", q, len(names), hits)
	}
	h.done()
}
