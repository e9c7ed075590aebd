package files

import (
	"fmt"
	"testing"
)

func TestVerifC11(t *testing.T) {
	h := vhNew(t, 100)
	for h.more(500) {
		capn := h.r.Intn(6)
		if h.r.Intn(6) == 0 {
			capn = 1 + h.r.Intn(40)
		}
		n := 1 + h.r.Intn(60)
		log := fmt.Sprintf("capacity %d:", capn)
		desc := func() string { return log }
		h.noPanic("cache", desc, func() {
			c := newCache(capn)
			live := map[cacheToken]file{}
			used := map[cacheToken]bool{}
			next := 0
			bad := func(format string, args ...interface{}) {
				h.fail("cache", "%s: %s", log, fmt.Sprintf(format, args...))
			}
			var toks []cacheToken
			out := func(f file) bool {
				for k, v := range live {
					if v == f {
						delete(live, k)
						return true
					}
				}
				return false
			}
			for i := 0; i < n && h.bad == 0; i++ {
				switch k := h.r.Intn(20); {
				case k < 11:
					next++
					f := file{data: uintptr(next), len: next * 3, cap: next + 5, size: next + 1}
					log += fmt.Sprintf(" Put(%d)", next)
					before := len(live)
					tok, ev, ok := c.Put(f)
					log += fmt.Sprintf("=%d,%d,%v", tok, ev.data, ok)
					if used[tok] {
						bad("token %d was given out twice", tok)
						return
					}
					used[tok] = true
					toks = append(toks, tok)
					if capn > 0 {
						live[tok] = f
					}
					switch {
					case capn == 0:
						if !ok || ev != f {
							bad("a cache without capacity must hand the file back")
							return
						}
					case before == capn:
						if !ok || ev == f || !out(ev) {
							bad("a full cache must evict a file it holds")
							return
						}
					case ok:
						bad("evicted %d although there was room (%d of %d)", ev.data, before, capn)
						return
					}
				case k < 18 && len(toks) > 0 || k == 18:
					tok := cacheToken(h.r.Intn(next+3) - 1)
					if len(toks) > 0 && h.r.Intn(4) > 0 {
						tok = toks[h.r.Intn(len(toks))]
					}
					f, ok := c.Take(tok)
					log += fmt.Sprintf(" Take(%d)=%d,%v", tok, f.data, ok)
					want, in := live[tok]
					delete(live, tok)
					if ok != in || ok && f != want {
						bad("want %d,%v", want.data, in)
						return
					}
				default:
					stop := h.r.Intn(8)
					log += " TakeAll("
					calls := 0
					c.TakeAll(func(f file) bool {
						calls++
						log += fmt.Sprint(" ", f.data)
						if !out(f) {
							bad("TakeAll returned a file that is not in the cache")
						}
						return calls != stop
					})
					log += ")"
					if len(live) > 0 && calls != stop {
						bad("TakeAll left files behind")
					}
				}
				if len(live) > capn {
					bad("%d files in a cache of %d", len(live), capn)
				}
				if len(c.handles) != len(live) {
					bad("%d files held, want %d", len(c.handles), len(live))
				}
			}
			for tok, want := range live {
				f, ok := c.Take(tok)
				log += fmt.Sprintf(" Take(%d)=%d,%v", tok, f.data, ok)
				if !ok || f != want {
					bad("file %d was lost", want.data)
					return
				}
			}
			if _, ok := c.Take(cacheToken(next)); ok {
				bad("an emptied cache still holds a file")
			}
		})
		h.did("%s", log)
	}
	h.done()
}
