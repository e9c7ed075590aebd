package registry

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/listener"
)

type vObj struct {
	database.DB
	dist.Params
	id int
}

func (*vObj) Run(context.Context, *data.Writer) error { return nil }

type vDB struct {
	database.DB
	id int
}
type vParams struct {
	dist.Params
	id int
}
type vLis struct{ id int }

func (*vLis) Run(context.Context, *data.Writer) error { return nil }

type vKey string

// vMaker records the calls it gets.
type vMaker struct {
	id   int
	fail bool
	ctxs []context.Context
	cfgs []interface{}
}

func (m *vMaker) call(ctx context.Context, c interface{}) error {
	m.ctxs = append(m.ctxs, ctx)
	m.cfgs = append(m.cfgs, c)
	if m.fail {
		return fmt.Errorf("maker %d", m.id)
	}
	return nil
}

type vAPI struct {
	reg func(kind int, name string, m *vMaker)
	mk  func(kind int, ctx context.Context, name string, c interface{}) (int, error)
}

func vLM(m *vMaker) ListenerMaker {
	return ListenerMakerFunc(func(ctx context.Context, c interface{}) (listener.Listener, error) {
		err := m.call(ctx, c)
		return &vLis{m.id}, err
	})
}
func vDM(m *vMaker) DatabaseMaker {
	return DatabaseMakerFunc(func(ctx context.Context, c interface{}) (database.DB, error) {
		err := m.call(ctx, c)
		return &vDB{id: m.id}, err
	})
}
func vPM(m *vMaker) DistributionMaker {
	return DistributionMakerFunc(func(ctx context.Context, c interface{}) (dist.Params, error) {
		err := m.call(ctx, c)
		return &vParams{id: m.id}, err
	})
}

func vID(x interface{}) int {
	switch x := x.(type) {
	case *vLis:
		return x.id
	case *vDB:
		return x.id
	case *vParams:
		return x.id
	}
	return -1
}

func vOf(r *Registry) vAPI {
	return vAPI{
		func(k int, n string, m *vMaker) {
			switch k {
			case 0:
				r.RegisterListener(n, vLM(m))
			case 1:
				r.RegisterDatabase(n, vDM(m))
			default:
				r.RegisterDistribution(n, vPM(m))
			}
		},
		func(k int, ctx context.Context, n string, c interface{}) (int, error) {
			switch k {
			case 0:
				x, err := r.NewListener(ctx, n, c)
				return vID(x), err
			case 1:
				x, err := r.NewDatabase(ctx, n, c)
				return vID(x), err
			default:
				x, err := r.NewDistribution(ctx, n, c)
				return vID(x), err
			}
		},
	}
}

func vDefault() vAPI {
	Default.mu.Lock()
	Default.listeners, Default.databases, Default.distributions = nil, nil, nil
	Default.mu.Unlock()
	return vAPI{
		func(k int, n string, m *vMaker) {
			switch k {
			case 0:
				RegisterListener(n, vLM(m))
			case 1:
				RegisterDatabase(n, vDM(m))
			default:
				RegisterDistribution(n, vPM(m))
			}
		},
		func(k int, ctx context.Context, n string, c interface{}) (int, error) {
			switch k {
			case 0:
				x, err := NewListener(ctx, n, c)
				return vID(x), err
			case 1:
				x, err := NewDatabase(ctx, n, c)
				return vID(x), err
			default:
				x, err := NewDistribution(ctx, n, c)
				return vID(x), err
			}
		},
	}
}

var vKinds = []string{"Listener", "Database", "Distribution"}

func TestVerifRegistry(t *testing.T) {
	h := vhNew(t, 70)
	defer h.done()
	names := []string{"a", "b", "A", "", "a ", "files", "ab"}
	for h.more(1000) {
		var tr []string
		desc := func() string { return strings.Join(tr, "; ") }
		h.within(20*time.Second, "hang", desc, func() {
			api := vOf(new(Registry))
			if h.r.Intn(3) == 0 {
				api = vDefault()
				tr = append(tr, "Default")
			}
			var model [3]map[string]*vMaker
			for i := range model {
				model[i] = map[string]*vMaker{}
			}
			id := 0
			nn := 1 + h.r.Intn(len(names))
			for i := h.r.Intn(16); i >= 0 && h.bad == 0; i-- {
				k, n := h.r.Intn(3), names[h.r.Intn(nn)]
				if h.r.Intn(2) == 0 {
					id++
					m := &vMaker{id: id, fail: h.r.Intn(4) == 0}
					tr = append(tr, fmt.Sprintf("Register%s(%q, maker %d fails=%v)", vKinds[k], n, id, m.fail))
					api.reg(k, n, m)
					model[k][n] = m
					continue
				}
				cfg := interface{}(map[string]int{"x": i})
				if h.r.Intn(3) == 0 {
					cfg = nil
				}
				ctx := context.WithValue(context.Background(), vKey("v"), i)
				tr = append(tr, fmt.Sprintf("New%s(%q)", vKinds[k], n))
				calls := 0
				for _, mm := range model {
					for _, m := range mm {
						calls -= len(m.ctxs)
					}
				}
				got, err := api.mk(k, ctx, n, cfg)
				for _, mm := range model {
					for _, m := range mm {
						calls += len(m.ctxs)
					}
				}
				m := model[k][n]
				if m == nil {
					if err == nil || got != -1 || calls != 0 {
						h.fail("missing", "%s: got object %d, error %v, %d maker calls for a name never registered", desc(), got, err, calls)
					}
					continue
				}
				if calls != 1 || got != m.id || (err != nil) != m.fail || m.fail && err.Error() != fmt.Sprintf("maker %d", m.id) {
					h.fail("maker", "%s: object %d error %v, %d calls; want one call of maker %d (failing: %v)", desc(), got, err, calls, m.id, m.fail)
					continue
				}
				l := len(m.ctxs) - 1
				if m.ctxs[l] != ctx || fmt.Sprint(m.cfgs[l]) != fmt.Sprint(cfg) {
					h.fail("args", "%s: the maker got %v, %v", desc(), m.ctxs[l], m.cfgs[l])
				}
			}
		})
		h.did("%s", desc())
	}
}

func TestVerifRegistryConcurrent(t *testing.T) {
	h := vhNew(t, 30)
	defer h.done()
	for h.more(20) {
		api := vOf(new(Registry))
		seed := h.r.Int63()
		desc := func() string { return fmt.Sprintf("4 goroutines registering and making, seed %d", seed) }
		h.within(30*time.Second, "hang", desc, func() {
			var wg sync.WaitGroup
			var mu sync.Mutex
			var bad error
			for g := 0; g < 4; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					// each goroutine owns one name, so it must always see its own last registration
					n := fmt.Sprint("n", g)
					for i := 0; i < 50; i++ {
						k := (i + g) % 3
						api.reg(k, n, &vMaker{id: g*1000 + i})
						got, err := api.mk(k, context.Background(), n, nil)
						if err != nil || got != g*1000+i {
							mu.Lock()
							bad = errors.New(fmt.Sprintf("goroutine %d registered maker %d under its own name but got %d, %v", g, g*1000+i, got, err))
							mu.Unlock()
							return
						}
						if _, err := api.mk(k, context.Background(), "nobody", nil); err == nil {
							mu.Lock()
							bad = errors.New("made an unregistered name")
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			if bad != nil {
				h.fail("lost", "%v (%s)", bad, desc())
			}
		})
		h.did("%d", seed)
	}
}
