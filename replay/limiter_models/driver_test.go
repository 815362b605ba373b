package v1

import (
	"fmt"
	"testing"

	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func vkvs() []datatypes.KeyValues {
	return []datatypes.KeyValues{nil, {}, {"a": datatypes.Int(1)}, {"a": datatypes.Int(1), "b": datatypes.Any()}, {"a": {Type: datatypes.T_int, Data: "x"}}, {"a": datatypes.Int(2), "b": {}}}
}
func vp(n int64) *int64 { return &n }

var vlimits = []*int64{nil, vp(-2), vp(-1), vp(0), vp(5), vp(-1 << 63), vp(1<<63 - 1)}

func vlimitOK(l *int64) bool { return l != nil && *l >= -1 }

func vcheck(t *testing.T, n *int, what any, f func() bool, want bool) {
	*n++
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("VERIF-FAIL panic: %v on %+v", p, what)
		}
	}()
	if got := f(); got != want {
		t.Fatalf("VERIF-FAIL %+v accepted=%v, want %v", what, got, want)
	}
}

func vtyped(kv datatypes.KeyValues) bool {
	return kv.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType) == nil && len(kv) > 0
}
func vany(kv datatypes.KeyValues) bool {
	return kv.Validate(datatypes.MinDataType, datatypes.MaxDataType) == nil && len(kv) > 0
}

type vcase[T any] struct {
	v  T
	ok bool
}

func vcounterSpecs() (r []vcase[*CounterSpec]) {
	r = append(r, vcase[*CounterSpec]{nil, false}, vcase[*CounterSpec]{&CounterSpec{}, false})
	for _, kv := range append(vkvs(), nil) {
		d := &CounterDBDefinition{KeyValues: kv}
		r = append(r, vcase[*CounterSpec]{&CounterSpec{DBDefinition: d}, false}, vcase[*CounterSpec]{&CounterSpec{DBDefinition: d, Properties: &CounteProperties{}}, false})
		for _, c := range vlimits {
			r = append(r, vcase[*CounterSpec]{&CounterSpec{DBDefinition: d, Properties: &CounteProperties{Counters: c}}, c != nil && vtyped(kv)})
			r = append(r, vcase[*CounterSpec]{&CounterSpec{Properties: &CounteProperties{Counters: c}}, false})
		}
	}
	return
}

func voverrideSpecs() (r []vcase[*OverrideSpec]) {
	r = append(r, vcase[*OverrideSpec]{nil, false}, vcase[*OverrideSpec]{&OverrideSpec{}, false})
	for _, kv := range vkvs() {
		d := &OverrideDBDefinition{GroupByKeyValues: kv}
		r = append(r, vcase[*OverrideSpec]{&OverrideSpec{DBDefinition: d}, false})
		for _, l := range vlimits {
			r = append(r, vcase[*OverrideSpec]{&OverrideSpec{DBDefinition: d, Properties: &OverrideProperties{Limit: l}}, vany(kv) && vlimitOK(l)})
			r = append(r, vcase[*OverrideSpec]{&OverrideSpec{Properties: &OverrideProperties{Limit: l}}, false})
		}
	}
	return
}

func vruleSpecs() (r []vcase[*RuleSpec]) {
	r = append(r, vcase[*RuleSpec]{nil, false}, vcase[*RuleSpec]{&RuleSpec{}, false})
	for _, kv := range vkvs() {
		d := &RuleDBDefinition{GroupByKeyValues: kv}
		r = append(r, vcase[*RuleSpec]{&RuleSpec{DBDefinition: d}, false})
		for _, l := range vlimits {
			r = append(r, vcase[*RuleSpec]{&RuleSpec{DBDefinition: d, Properties: &RuleProperties{Limit: l}}, vany(kv) && vlimitOK(l)})
			r = append(r, vcase[*RuleSpec]{&RuleSpec{Properties: &RuleProperties{Limit: l}}, false})
		}
	}
	return
}

func TestVerifP05Limiter(t *testing.T) {
	n := 0
	goodC := &Counter{Spec: &CounterSpec{DBDefinition: &CounterDBDefinition{KeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}}, Properties: &CounteProperties{Counters: vp(1)}}, State: &CounterState{}}
	vcheck(t, &n, Counters(nil), func() bool { return Counters(nil).Validate() == nil }, true)
	vcheck(t, &n, Counters{goodC, nil}, func() bool { return Counters{goodC, nil}.Validate() == nil }, false)
	for _, s := range vcounterSpecs() {
		c := &Counter{Spec: s.v}
		vcheck(t, &n, s.v, func() bool { return c.ValidateSpecOnly() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return c.Validate() == nil }, false)
		c2 := &Counter{Spec: s.v, State: &CounterState{}}
		vcheck(t, &n, s.v, func() bool { return c2.ValidateSpecOnly() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return c2.Validate() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return Counters{goodC, c2}.Validate() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return Counters{c2, goodC}.Validate() == nil }, s.ok)
	}
	goodO := &Override{Spec: &OverrideSpec{DBDefinition: &OverrideDBDefinition{GroupByKeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}}, Properties: &OverrideProperties{Limit: vp(1)}}, State: &OverrideState{}}
	vcheck(t, &n, Overrides{goodO, nil}, func() bool { return Overrides{goodO, nil}.Validate() == nil }, false)
	var badO, okO *Override
	for _, s := range voverrideSpecs() {
		o := &Override{Spec: s.v}
		vcheck(t, &n, s.v, func() bool { return o.ValidateSpecOnly() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return o.Validate() == nil }, false)
		o2 := &Override{Spec: s.v, State: &OverrideState{}}
		vcheck(t, &n, s.v, func() bool { return o2.ValidateSpecOnly() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return o2.Validate() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return Overrides{goodO, o2}.Validate() == nil }, s.ok)
		vcheck(t, &n, s.v, func() bool { return Overrides{o2, goodO}.Validate() == nil }, s.ok)
		if s.ok {
			okO = o2
		} else {
			badO = o2
		}
	}
	goodR := &Rule{Spec: &RuleSpec{DBDefinition: &RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues{"a": datatypes.Int(1)}}, Properties: &RuleProperties{Limit: vp(1)}}}
	vcheck(t, &n, Rules{goodR, nil}, func() bool { return Rules{goodR, nil}.Validate() == nil }, false)
	for _, s := range vruleSpecs() {
		for _, st := range []vcase[*RuleState]{{nil, true}, {&RuleState{}, true}, {&RuleState{Overrides: Overrides{okO}}, true}, {&RuleState{Overrides: Overrides{okO, badO}}, false}, {&RuleState{Overrides: Overrides{nil}}, false}} {
			r := &Rule{Spec: s.v, State: st.v}
			vcheck(t, &n, s.v, func() bool { return r.ValidateSpecOnly() == nil }, s.ok)
			vcheck(t, &n, s.v, func() bool { return r.Validate() == nil }, s.ok && st.ok)
			vcheck(t, &n, s.v, func() bool { return Rules{goodR, r}.Validate() == nil }, s.ok && st.ok)
			vcheck(t, &n, s.v, func() bool { return Rules{r, goodR}.Validate() == nil }, s.ok && st.ok)
		}
	}
	fmt.Println("VERIF-CASES P05 limiter documents", n)
}
