package limiterclient

import (
	"context"
	"net/http"
	"testing"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func TestVerifP20Limiter(t *testing.T) {
	rt := &vrt{}
	c := &LimitClient{url: "http://h", client: &http.Client{Transport: rt, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
	ctx := context.Background()
	kv := datatypes.KeyValues{"a": datatypes.Int(1)}
	rule := func(l int64) *v1limiter.Rule {
		return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kv}, Properties: &v1limiter.RuleProperties{Limit: vp(l)}}, State: &v1limiter.RuleState{}}
	}
	rule2 := func(l int64) *v1limiter.Rule { r := rule(l); r.State = nil; return r }
	over := func(l int64, st bool) *v1limiter.Override {
		o := &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: kv}, Properties: &v1limiter.OverrideProperties{Limit: vp(l)}}}
		if st {
			o.State = &v1limiter.OverrideState{}
		}
		return o
	}
	counter := func(n int64, st bool) *v1limiter.Counter {
		o := &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv}, Properties: &v1limiter.CounteProperties{Counters: vp(n)}}}
		if st {
			o.State = &v1limiter.CounterState{}
		}
		return o
	}
	qs := []any{&queryassociatedaction.AssociatedActionQuery{}, &queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{IDs: []string{"x"}}}}
	qbad := []any{&queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{}}}
	ms := []any{&querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{"a": querymatchaction.MatchValue{Value: datatypes.Int(1), TypeRestrictions: v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}}}}}
	mbad := []any{&querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{"a": querymatchaction.MatchValue{Value: datatypes.EncapsulatedValue{Type: 99}}}}}
	badRules := []string{`{}`, `{"Spec":{}}`, `null`}
	badLists := []string{`[null]`, `[{}]`, `[{"Spec":{}}]`}
	upd := []any{&v1limiter.RuleProperties{Limit: vp[int64](5)}, &v1limiter.RuleProperties{Limit: vp[int64](-1)}}
	updBad := []any{&v1limiter.RuleProperties{}, &v1limiter.RuleProperties{Limit: vp[int64](-2)}}
	oupd := []any{&v1limiter.OverrideProperties{Limit: vp[int64](5)}}
	oupdBad := []any{&v1limiter.OverrideProperties{}, &v1limiter.OverrideProperties{Limit: vp[int64](-2)}}
	rp := "/v1/limiter/rules"
	ops := []vop{
		{"CreateRule", "POST", rp, 201, []any{rule2(3)}, []any{rule2(-5), &v1limiter.Rule{}}, []any{rule(3), rule(-1)}, badRules, func(d any) (any, error) { return c.CreateRule(ctx, d.(*v1limiter.Rule)) }},
		{"GetRule", "GET", rp + "/r", 200, nil, nil, []any{rule(3)}, badRules, func(d any) (any, error) { return c.GetRule(ctx, "r") }},
		{"QueryRules", "GET", rp + "/query", 200, qs, qbad, []any{v1limiter.Rules{rule(3), rule(4)}, v1limiter.Rules{}}, badLists, func(d any) (any, error) {
			return c.QueryRules(ctx, d.(*queryassociatedaction.AssociatedActionQuery))
		}},
		{"MatchRules", "GET", rp + "/match", 200, ms, mbad, []any{v1limiter.Rules{rule(3), rule(4)}}, badLists, func(d any) (any, error) { return c.MatchRules(ctx, d.(*querymatchaction.MatchActionQuery)) }},
		{"UpdateRule", "PUT", rp + "/r", 200, upd, updBad, nil, nil, func(d any) (any, error) { return nil, c.UpdateRule(ctx, "r", d.(*v1limiter.RuleProperties)) }},
		{"DeleteRule", "DELETE", rp + "/r", 204, nil, nil, nil, nil, func(d any) (any, error) { return nil, c.DeleteRule(ctx, "r") }},
		{"CreateOverride", "POST", rp + "/r/overrides", 201, []any{over(3, false)}, []any{over(-5, false), &v1limiter.Override{}}, []any{over(3, true)}, badRules, func(d any) (any, error) { return c.CreateOverride(ctx, "r", d.(*v1limiter.Override)) }},
		{"QueryOverrides", "GET", rp + "/r/overrides/query", 200, qs, qbad, []any{v1limiter.Overrides{over(3, true)}}, badLists, func(d any) (any, error) {
			return c.QueryOverrides(ctx, "r", d.(*queryassociatedaction.AssociatedActionQuery))
		}},
		{"MatchOverrides", "GET", rp + "/r/overrides/match", 200, ms, mbad, []any{v1limiter.Overrides{over(3, true)}}, badLists, func(d any) (any, error) {
			return c.MatchOverrides(ctx, "r", d.(*querymatchaction.MatchActionQuery))
		}},
		{"GetOverride", "GET", rp + "/r/overrides/o", 200, nil, nil, []any{over(3, true)}, badRules, func(d any) (any, error) { return c.GetOverride(ctx, "r", "o") }},
		{"UpdateOverride", "PUT", rp + "/r/overrides/o", 200, oupd, oupdBad, nil, nil, func(d any) (any, error) {
			return nil, c.UpdateOverride(ctx, "r", "o", d.(*v1limiter.OverrideProperties))
		}},
		{"DeleteOverride", "DELETE", rp + "/r/overrides/o", 204, nil, nil, nil, nil, func(d any) (any, error) { return nil, c.DeleteOverride(ctx, "r", "o") }},
		{"UpdateCounter", "PUT", "/v1/limiter/counters", 200, []any{counter(1, false), counter(-1, false)}, []any{&v1limiter.Counter{}}, nil, nil, func(d any) (any, error) { return nil, c.UpdateCounter(ctx, d.(*v1limiter.Counter)) }},
		{"SetCounters", "PUT", "/v1/limiter/counters/set", 200, []any{counter(4, false)}, []any{&v1limiter.Counter{}}, nil, nil, func(d any) (any, error) { return nil, c.SetCounters(ctx, d.(*v1limiter.Counter)) }},
		{"QueryCounters", "GET", "/v1/limiter/counters/query", 200, qs, qbad, []any{v1limiter.Counters{counter(3, true)}}, badLists, func(d any) (any, error) {
			return c.QueryCounters(ctx, d.(*queryassociatedaction.AssociatedActionQuery))
		}},
		{"Healthy", "GET", "/health", 200, nil, nil, nil, nil, func(d any) (any, error) { return nil, c.Healthy() }},
	}
	vrunOps(t, rt, ops)
}
