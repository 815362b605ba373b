package counters

// Compares histories of rules, overrides and counters with a plain model: admission, arithmetic, disappearance.

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/testhelpers"
)

type vlocker struct {
	mu   sync.Mutex
	held map[string]chan struct{}
	mode int // 0 all locks are given, 1 an error, 2 the context was cancelled
}

type vlock struct {
	l    *vlocker
	k    string
	done chan struct{}
}

func (v *vlock) Done() <-chan struct{} { return v.done }
func (v *vlock) Release(context.Context) error {
	v.l.mu.Lock()
	defer v.l.mu.Unlock()
	c, ok := v.l.held[v.k]
	if !ok {
		return fmt.Errorf("released twice")
	}
	delete(v.l.held, v.k)
	close(c)
	return nil
}
func (v *vlocker) Healthy() error { return nil }
func (v *vlocker) ObtainLock(ctx context.Context, r *v1locker.Lock, _ func(datatypes.KeyValues, error)) (lockerclient.Lock, error) {
	k := vkey(r.Spec.DBDefinition.KeyValues)
	for {
		v.mu.Lock()
		if v.mode == 1 {
			v.mu.Unlock()
			return nil, fmt.Errorf("no lock")
		}
		if v.mode == 2 {
			v.mu.Unlock()
			return nil, nil
		}
		c, busy := v.held[k]
		if !busy {
			v.held[k] = make(chan struct{})
			v.mu.Unlock()
			return &vlock{v, k, make(chan struct{})}, nil
		}
		v.mu.Unlock()
		<-c
	}
}

func vkey(kv datatypes.KeyValues) string {
	var p []string
	for k, v := range kv {
		p = append(p, fmt.Sprintf("%s=%d:%v", k, v.Type, v.Data))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

type vlimit struct {
	kv    datatypes.KeyValues
	limit int64
	over  []*vlimit
}

func (l *vlimit) matches(kv datatypes.KeyValues) bool {
	for k, v := range l.kv {
		w, ok := kv[k]
		if !ok || v.Type != datatypes.T_any && (v.Type != w.Type || v.Data != w.Data) {
			return false
		}
	}
	return true
}

func i64(n int64) *int64 { return &n }

func verifRandKV(r *rand.Rand, max int, any bool) datatypes.KeyValues {
	kv := datatypes.KeyValues{}
	for n := 1 + r.Intn(max); n > 0; n-- {
		k := string(rune('a' + r.Intn(4)))
		switch c := r.Intn(5); {
		case any && c > 1:
			kv[k] = datatypes.Any()
		case c == 0:
			kv[k] = datatypes.Int(r.Intn(2))
		default:
			kv[k] = datatypes.String(string(rune('x' + r.Intn(2))))
		}
	}
	return kv
}

func TestVerifP11Counters(t *testing.T) { verifCounters(t) }

func TestVerifP12Counters(t *testing.T) { verifCounters(t) }

func verifCounters(t *testing.T) {
	var cases, fails atomic.Int64
	fail := func(f string, a ...any) {
		if fails.Add(1) < 4 {
			t.Errorf("VERIF-FAIL "+f, a...)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for h := 0; h < 60; h++ {
				verifHistory(int64(w*1000+h), fail, &cases)
			}
		}(w)
	}
	wg.Wait()
	for s := int64(0); s < 30; s++ {
		verifConcurrent(s, fail, &cases)
	}
	t.Logf("VERIF-CASES counter-histories %d", cases.Load())
}

func verifClients() (*counterClientLocal, rules.RuleClient) {
	oc, _ := overrides.NewOverrideConstructor("memory")
	rc, _ := rules.NewRuleConstructor("memory")
	cc, _ := NewCountersConstructor("memory")
	rl := rules.NewLocalRulesClient(rc, overrides.NewDefaultOverridesClientLocal(oc))
	return NewCountersClientLocal(cc, rl), rl
}

func vcounter(kv datatypes.KeyValues, n int64) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv}, Properties: &v1limiter.CounteProperties{Counters: i64(n)}}}
}

func verifHistory(seed int64, fail func(string, ...any), cases *atomic.Int64) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			fail("history %d: %s: panic %v", seed, strings.Join(log, "; "), p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	ctx := testhelpers.NewContextWithMiddlewareSetup()
	cl, rl := verifClients()
	lk := &vlocker{held: map[string]chan struct{}{}}
	var lims []*vlimit
	have := map[string]bool{}
	for n := r.Intn(4); n > 0; n-- {
		l := &vlimit{kv: verifRandKV(r, 2, true), limit: []int64{-1, 0, 1, 2, 5, 9, math.MaxInt64}[r.Intn(7)]}
		if have[vkey(l.kv)] {
			continue
		}
		have[vkey(l.kv)] = true
		id, err := rl.CreateRule(ctx, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: l.kv}, Properties: &v1limiter.RuleProperties{Limit: i64(l.limit)}}})
		if err != nil {
			continue
		}
		log = append(log, fmt.Sprintf("rule {%s} limit %d", vkey(l.kv), l.limit))
		lims = append(lims, l)
		for m := r.Intn(3); m > 0; m-- {
			o := &vlimit{kv: verifRandKV(r, 2, true), limit: []int64{-1, 0, 1, 3, 9}[r.Intn(5)]}
			for k, v := range l.kv {
				if _, ok := o.kv[k]; !ok {
					o.kv[k] = v
				}
			}
			if have[id+vkey(o.kv)] {
				continue
			}
			have[id+vkey(o.kv)] = true
			if _, err := rl.CreateOverride(ctx, id, &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: o.kv}, Properties: &v1limiter.OverrideProperties{Limit: i64(o.limit)}}}); err != nil {
				continue
			}
			log = append(log, fmt.Sprintf("override {%s} limit %d", vkey(o.kv), o.limit))
			l.over = append(l.over, o)
		}
	}
	model := map[string]int64{}
	kvs := map[string]datatypes.KeyValues{}
	for step := 0; step < 12; step++ {
		kv := verifRandKV(r, 4, false)
		if len(kvs) > 0 && r.Intn(2) == 0 {
			var ks []string
			for k := range kvs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			kv = kvs[ks[r.Intn(len(ks))]]
		}
		k := vkey(kv)
		kvs[k] = kv
		switch r.Intn(6) {
		case 0, 1, 2:
			n := []int64{1, 1, 1, 2, 3, 6, math.MaxInt64 / 4}[r.Intn(7)]
			lk.mode = 0
			if r.Intn(12) == 0 {
				lk.mode = 1 + r.Intn(2)
			}
			want, checked := true, false
			consider := func(l *vlimit) {
				if l.limit == -1 {
					return
				}
				checked = true
				total := new(big.Int).SetInt64(n)
				for k2, c := range model {
					same := true
					for key := range l.kv {
						w, ok := kvs[k2][key]
						same = same && ok && w == kv[key]
					}
					if same {
						total.Add(total, big.NewInt(c))
					}
				}
				if total.Cmp(big.NewInt(l.limit)) > 0 {
					want = false
				}
			}
			for _, l := range lims {
				if !l.matches(kv) {
					continue
				}
				any := false
				for _, o := range l.over {
					if o.matches(kv) {
						any = true
						consider(o)
					}
				}
				if !any {
					consider(l)
				}
			}
			log = append(log, fmt.Sprintf("increment {%s} by %d", k, n))
			if lk.mode > 0 {
				log = append(log, fmt.Sprintf("(locker mode %d)", lk.mode))
			}
			if model[k] > math.MaxInt64-n {
				log = append(log, "(skipped: the counter would exceed its type)")
				continue
			}
			err := cl.IncrementCounters(ctx, lk, vcounter(kv, n))
			if lk.mode > 0 && checked && want {
				if err == nil {
					fail("history %d: %s: accepted although the locks were not obtained", seed, strings.Join(log, "; "))
				}
				break
			}
			if (err == nil) != want {
				fail("history %d: %s: accepted=%v, want %v (%v)", seed, strings.Join(log, "; "), err == nil, want, err)
				return
			}
			if err == nil {
				model[k] += n
			} else if lk.mode == 0 && err.StatusCode != 409 {
				fail("history %d: %s: refused with %v", seed, strings.Join(log, "; "), err)
			}
		case 3, 4:
			n := -int64(r.Intn(4))
			log = append(log, fmt.Sprintf("decrement {%s} by %d", k, n))
			if err := cl.DecrementCounters(ctx, vcounter(kv, n)); err != nil {
				fail("history %d: %s: %v", seed, strings.Join(log, "; "), err)
			}
			if c, ok := model[k]; ok {
				if c+n <= 0 {
					delete(model, k)
				} else {
					model[k] = c + n
				}
			}
		default:
			n := int64(r.Intn(8) - 2)
			if r.Intn(8) == 0 {
				n = math.MaxInt64 - int64(r.Intn(3))
			}
			log = append(log, fmt.Sprintf("set {%s} to %d", k, n))
			if err := cl.SetCounter(ctx, vcounter(kv, n)); err != nil {
				fail("history %d: %s: %v", seed, strings.Join(log, "; "), err)
			}
			if n <= 0 {
				delete(model, k)
			} else {
				model[k] = n
			}
		}
		got, err := cl.QueryCounters(ctx, &queryassociatedaction.AssociatedActionQuery{})
		if err != nil {
			fail("history %d: %s: query: %v", seed, strings.Join(log, "; "), err)
			return
		}
		seen := map[string]int64{}
		for _, c := range got {
			seen[vkey(c.Spec.DBDefinition.KeyValues)] += *c.Spec.Properties.Counters
		}
		if len(got) != len(model) || fmt.Sprint(seen) != fmt.Sprint(model) {
			fail("history %d: %s: counters are %v, want %v", seed, strings.Join(log, "; "), seen, model)
			return
		}
		if len(lk.held) != 0 {
			fail("history %d: %s: %d lock(s) not released", seed, strings.Join(log, "; "), len(lk.held))
			return
		}
		cases.Add(1)
	}
}

// increments of different clients at the same time stay within the limit they share
func verifConcurrent(seed int64, fail func(string, ...any), cases *atomic.Int64) {
	r := rand.New(rand.NewSource(seed))
	ctx := testhelpers.NewContextWithMiddlewareSetup()
	cl, rl := verifClients()
	lk := &vlocker{held: map[string]chan struct{}{}}
	limit := int64(3 + r.Intn(6))
	if _, err := rl.CreateRule(ctx, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues{"a": datatypes.Any()}}, Properties: &v1limiter.RuleProperties{Limit: i64(limit)}}}); err != nil {
		fail("rule: %v", err)
		return
	}
	var wg sync.WaitGroup
	var accepted atomic.Int64
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			for n := 0; n < 3; n++ {
				kv := datatypes.KeyValues{"a": datatypes.String("x"), string(rune('b' + (c+n)%4)): datatypes.Int(c % 3)}
				if err := cl.IncrementCounters(ctx, lk, vcounter(kv, 1)); err == nil {
					accepted.Add(1)
				}
			}
		}(c)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("concurrent increments (seed %d) never returned", seed)
		return
	}
	var total int64
	got, err := cl.QueryCounters(ctx, &queryassociatedaction.AssociatedActionQuery{})
	if err != nil {
		fail("query: %v", err)
	}
	for _, c := range got {
		total += *c.Spec.Properties.Counters
	}
	if total != limit || accepted.Load() != limit {
		fail("concurrent increments (seed %d): %d accepted, counters total %d, limit %d", seed, accepted.Load(), total, limit)
	}
	cases.Add(1)
}
