package rules

// Compares histories of rule and override operations with a plain model.

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/testhelpers"
)

type vover struct {
	kv    datatypes.KeyValues
	limit int64
}

type vrule struct {
	vover
	over map[string]*vover
}

func vkey(kv datatypes.KeyValues) string {
	var s []string
	for k, v := range kv {
		s = append(s, fmt.Sprintf("%s=%d:%v", k, v.Type, v.Data))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func vinside(rule, kv datatypes.KeyValues) bool {
	for k, v := range rule {
		w, ok := kv[k]
		if !ok || v.Type != datatypes.T_any && (v.Type != w.Type || v.Data != w.Data) {
			return false
		}
	}
	return true
}

func vlim(n int64) *int64 { return &n }

func vkv(r *rand.Rand, max int, any bool) datatypes.KeyValues {
	kv := datatypes.KeyValues{}
	for n := 1 + r.Intn(max); n > 0; n-- {
		k := string(rune('a' + r.Intn(3)))
		switch c := r.Intn(4); {
		case any && c == 3:
			kv[k] = datatypes.Any()
		case c == 0:
			kv[k] = datatypes.Int(r.Intn(2))
		default:
			kv[k] = datatypes.String(string(rune('x' + r.Intn(2))))
		}
	}
	return kv
}

func vcopy(kv datatypes.KeyValues) datatypes.AnyKeyValues {
	c := datatypes.AnyKeyValues{}
	for k, v := range kv {
		c[k] = v
	}
	return c
}

func vsame(a datatypes.AnyKeyValues, b datatypes.KeyValues) bool {
	return vkey(datatypes.KeyValues(a)) == vkey(b)
}

func vstatus(e *errors.ServerError) int {
	if e == nil {
		return 200
	}
	return e.StatusCode
}

func TestVerifP13Rules(t *testing.T) {
	var cases, fails atomic.Int64
	fail := func(f string, a ...any) {
		if fails.Add(1) < 4 {
			t.Errorf("VERIF-FAIL "+f, a...)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for h := 0; h < 80; h++ {
				verifRulesHistory(int64(w*1000+h), fail, &cases)
			}
		}(w)
	}
	wg.Wait()
	t.Logf("VERIF-CASES rule-histories %d", cases.Load())
}

func verifRulesHistory(seed int64, failT func(string, ...any), cases *atomic.Int64) {
	var log []string
	fail := func(f string, a ...any) {
		failT("history %d: %s: "+f, append([]any{seed, strings.Join(log, "; ")}, a...)...)
	}
	defer func() {
		if p := recover(); p != nil {
			fail("panic %v", p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	ctx := testhelpers.NewContextWithMiddlewareSetup()
	oc, _ := overrides.NewOverrideConstructor("memory")
	rc, _ := NewRuleConstructor("memory")
	cl := NewLocalRulesClient(rc, overrides.NewDefaultOverridesClientLocal(oc))
	model := map[string]*vrule{}
	limits := []int64{-1, 0, 1, 2, 7, math.MaxInt64}
	pick := func() string {
		var ks []string
		for k := range model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 || r.Intn(8) == 0 {
			return "no-such-rule"
		}
		return ks[r.Intn(len(ks))]
	}
	pickOver := func(rule string) string {
		m := model[rule]
		var ks []string
		if m != nil {
			for k := range m.over {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) == 0 || r.Intn(6) == 0 {
			return "no-such-override"
		}
		return ks[r.Intn(len(ks))]
	}
	for step := 0; step < 18; step++ {
		cases.Add(1)
		switch r.Intn(8) {
		case 0, 1:
			kv, l := vkv(r, 2, true), limits[r.Intn(len(limits))]
			log = append(log, fmt.Sprintf("create rule {%s} limit %d", vkey(kv), l))
			id, err := cl.CreateRule(ctx, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: vcopy(kv)}, Properties: &v1limiter.RuleProperties{Limit: vlim(l)}}})
			dup := false
			for _, m := range model {
				dup = dup || vkey(m.kv) == vkey(kv)
			}
			if dup != (vstatus(err) == 409) || !dup && (err != nil || id == "" || model[id] != nil) {
				fail("answered %q %v, key values in use: %t", id, err, dup)
				return
			}
			if !dup {
				model[id] = &vrule{vover: vover{kv, l}, over: map[string]*vover{}}
			}
		case 2, 3:
			id := pick()
			m := model[id]
			kv, l := vkv(r, 2, true), limits[r.Intn(len(limits))]
			if m != nil && r.Intn(4) > 0 {
				for k, v := range m.kv {
					if _, ok := kv[k]; !ok || r.Intn(3) > 0 {
						kv[k] = v
					}
				}
			}
			log = append(log, fmt.Sprintf("create override {%s} limit %d of rule %s", vkey(kv), l, id))
			oid, err := cl.CreateOverride(ctx, id, &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: vcopy(kv)}, Properties: &v1limiter.OverrideProperties{Limit: vlim(l)}}})
			want := 200
			if m == nil {
				want = 404
			} else {
				for _, o := range m.over {
					if vkey(o.kv) == vkey(kv) {
						want = 409
					}
				}
				for k := range m.kv {
					if _, ok := kv[k]; !ok {
						want = 400
					}
				}
			}
			if vstatus(err) != want || want == 200 && (oid == "" || m.over[oid] != nil) {
				fail("answered %q %v, want status %d", oid, err, want)
				return
			}
			if want == 200 {
				m.over[oid] = &vover{kv, l}
			}
		case 4:
			id, l := pick(), limits[r.Intn(len(limits))]
			log = append(log, fmt.Sprintf("update rule %s to %d", id, l))
			err := cl.UpdateRule(ctx, id, &v1limiter.RuleProperties{Limit: vlim(l)})
			if m := model[id]; m == nil != (vstatus(err) == 404) || m != nil && err != nil {
				fail("answered %v", err)
				return
			} else if m != nil {
				m.limit = l
			}
		case 5:
			id, l := pick(), limits[r.Intn(len(limits))]
			oid := pickOver(id)
			log = append(log, fmt.Sprintf("update override %s of rule %s to %d", oid, id, l))
			err := cl.UpdateOverride(ctx, id, oid, &v1limiter.OverrideProperties{Limit: vlim(l)})
			var o *vover
			if m := model[id]; m != nil {
				o = m.over[oid]
			}
			if o == nil != (vstatus(err) == 404) || o != nil && err != nil {
				fail("answered %v", err)
				return
			} else if o != nil {
				o.limit = l
			}
		case 6:
			id := pick()
			oid := pickOver(id)
			log = append(log, fmt.Sprintf("delete override %s of rule %s", oid, id))
			err := cl.DeleteOverride(ctx, id, oid)
			m := model[id]
			if m == nil && vstatus(err) != 404 || m != nil && err != nil {
				fail("answered %v", err)
				return
			}
			if m != nil {
				delete(m.over, oid)
			}
		case 7:
			id := pick()
			if r.Intn(2) == 0 {
				continue
			}
			log = append(log, "delete rule "+id)
			err := cl.DeleteRule(ctx, id)
			if m := model[id]; m == nil != (vstatus(err) == 404) || m != nil && err != nil {
				fail("answered %v", err)
				return
			}
			delete(model, id)
		}
		if !verifRulesState(ctx, r, cl, model, fail) {
			return
		}
	}
}

func verifRulesState(ctx context.Context, r *rand.Rand, cl *localRulesCient, model map[string]*vrule, fail func(string, ...any)) bool {
	ids := []string{"no-such-rule"}
	for id := range model {
		ids = append(ids, id)
	}
	ruleSame := func(got *v1limiter.Rule, id string) bool {
		m := model[id]
		return got != nil && m != nil && got.State != nil && got.State.ID == id && got.Spec != nil && vsame(got.Spec.DBDefinition.GroupByKeyValues, m.kv) && *got.Spec.Properties.Limit == m.limit
	}
	overSame := func(got *v1limiter.Override, oid string, o *vover) bool {
		return got != nil && o != nil && got.State != nil && got.State.ID == oid && got.Spec != nil && vsame(got.Spec.DBDefinition.GroupByKeyValues, o.kv) && *got.Spec.Properties.Limit == o.limit
	}
	for _, id := range ids {
		got, err := cl.GetRule(ctx, id)
		if m := model[id]; m == nil != (vstatus(err) == 404) || m != nil && !ruleSame(got, id) {
			fail("reading rule %s gives %+v %v", id, got, err)
			return false
		}
		qr, err := cl.QueryRules(ctx, queryassociatedaction.StringToAssociatedActionQuery(id))
		if err != nil || model[id] == nil && len(qr) != 0 || model[id] != nil && (len(qr) != 1 || !ruleSame(qr[0], id)) {
			fail("querying rule %s gives %v %v", id, qr, err)
			return false
		}
		oids := []string{"no-such-override"}
		if m := model[id]; m != nil {
			for oid := range m.over {
				oids = append(oids, oid)
			}
		}
		for _, oid := range oids {
			var o *vover
			if m := model[id]; m != nil {
				o = m.over[oid]
			}
			got, err := cl.GetOverride(ctx, id, oid)
			if o == nil != (vstatus(err) == 404) || o != nil && !overSame(got, oid, o) {
				fail("reading override %s of %s gives %+v %v", oid, id, got, err)
				return false
			}
			qo, err := cl.QueryOverrides(ctx, id, queryassociatedaction.StringToAssociatedActionQuery(oid))
			if model[id] != nil && (err != nil || o == nil && len(qo) != 0 || o != nil && (len(qo) != 1 || !overSame(qo[0], oid, o))) || model[id] == nil && vstatus(err) != 404 {
				fail("querying override %s of %s gives %v %v", oid, id, qo, err)
				return false
			}
		}
	}
	kv := vkv(r, 4, false)
	check := func(what string, rules v1limiter.Rules, overs bool) bool {
		seen := map[string]bool{}
		zero := false
		for _, g := range rules {
			if g.State == nil || seen[g.State.ID] || !ruleSame(g, g.State.ID) || !vinside(model[g.State.ID].kv, kv) {
				fail("%s {%s} gives rule %+v %+v", what, vkey(kv), g.Spec, g.State)
				return false
			}
			m := model[g.State.ID]
			seen[g.State.ID] = true
			if !overs {
				continue
			}
			so := map[string]bool{}
			zo := false
			for _, o := range g.State.Overrides {
				if so[o.State.ID] || !overSame(o, o.State.ID, m.over[o.State.ID]) || !vinside(m.over[o.State.ID].kv, kv) {
					fail("%s {%s} gives override %+v %+v of rule %s", what, vkey(kv), o.Spec, o.State, g.State.ID)
					return false
				}
				so[o.State.ID] = true
				zo = zo || *o.Spec.Properties.Limit == 0
			}
			for oid, o := range m.over {
				if !zo && !so[oid] && vinside(o.kv, kv) {
					fail("%s {%s} misses override %s of rule %s", what, vkey(kv), oid, g.State.ID)
					return false
				}
			}
			zero = zero || m.limit == 0 || zo
		}
		for id, m := range model {
			if !zero && !seen[id] && vinside(m.kv, kv) {
				fail("%s {%s} misses rule %s {%s}", what, vkey(kv), id, vkey(m.kv))
				return false
			}
		}
		return true
	}
	mr, err := cl.MatchRules(ctx, querymatchaction.KeyValuesToAnyMatchActionQuery(kv))
	if err != nil {
		fail("matching rules: %v", err)
		return false
	}
	fl, err := cl.FindLimits(ctx, kv)
	if err != nil {
		fail("finding limits: %v", err)
		return false
	}
	return check("matching", mr, false) && check("the limits of", fl, true)
}
