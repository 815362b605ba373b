package router

import (
	"context"
	"fmt"
	"testing"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vr struct{ *vbroker }

func voverride() *v1limiter.Override {
	return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues{"a": datatypes.Int(1)}}, Properties: &v1limiter.OverrideProperties{Limit: vp(int64(1))}}, State: &v1limiter.OverrideState{ID: "o"}}
}
func vrule() *v1limiter.Rule {
	return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues{"a": datatypes.Int(1)}}, Properties: &v1limiter.RuleProperties{Limit: vp(int64(1))}}, State: &v1limiter.RuleState{ID: "r", Overrides: v1limiter.Overrides{voverride()}}}
}
func (b vr) CreateRule(ctx context.Context, r *v1limiter.Rule) (string, *errors.ServerError) {
	return "new", b.got("CreateRule", "", "", r)
}
func (b vr) UpdateRule(ctx context.Context, id string, u *v1limiter.RuleProperties) *errors.ServerError {
	return b.got("UpdateRule", id, "", u)
}
func (b vr) QueryRules(ctx context.Context, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Rules, *errors.ServerError) {
	return v1limiter.Rules{vrule()}, b.got("QueryRules", "", "", q)
}
func (b vr) MatchRules(ctx context.Context, m *querymatchaction.MatchActionQuery) (v1limiter.Rules, *errors.ServerError) {
	return v1limiter.Rules{vrule()}, b.got("MatchRules", "", "", m)
}
func (b vr) GetRule(ctx context.Context, id string) (*v1limiter.Rule, *errors.ServerError) {
	return vrule(), b.got("GetRule", id, "", nil)
}
func (b vr) DeleteRule(ctx context.Context, id string) *errors.ServerError {
	return b.got("DeleteRule", id, "", nil)
}
func (b vr) CreateOverride(ctx context.Context, id string, o *v1limiter.Override) (string, *errors.ServerError) {
	return "new", b.got("CreateOverride", id, "", o)
}
func (b vr) UpdateOverride(ctx context.Context, id, o string, u *v1limiter.OverrideProperties) *errors.ServerError {
	return b.got("UpdateOverride", id, o, u)
}
func (b vr) QueryOverrides(ctx context.Context, id string, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Overrides, *errors.ServerError) {
	return v1limiter.Overrides{voverride()}, b.got("QueryOverrides", id, "", q)
}
func (b vr) MatchOverrides(ctx context.Context, id string, m *querymatchaction.MatchActionQuery) (v1limiter.Overrides, *errors.ServerError) {
	return v1limiter.Overrides{voverride()}, b.got("MatchOverrides", id, "", m)
}
func (b vr) GetOverride(ctx context.Context, id, o string) (*v1limiter.Override, *errors.ServerError) {
	return voverride(), b.got("GetOverride", id, o, nil)
}
func (b vr) DeleteOverride(ctx context.Context, id, o string) *errors.ServerError {
	return b.got("DeleteOverride", id, o, nil)
}
func (b vr) FindLimits(ctx context.Context, kv datatypes.KeyValues) (v1limiter.Rules, *errors.ServerError) {
	return nil, b.got("FindLimits", "", "", kv)
}
func (b vr) IncrementCounters(ctx context.Context, l lockerclient.LockerClient, c *v1limiter.Counter) *errors.ServerError {
	return b.got("IncrementCounters", "", "", c)
}
func (b vr) DecrementCounters(ctx context.Context, c *v1limiter.Counter) *errors.ServerError {
	return b.got("DecrementCounters", "", "", c)
}
func (b vr) SetCounter(ctx context.Context, c *v1limiter.Counter) *errors.ServerError {
	return b.got("SetCounter", "", "", c)
}
func (b vr) QueryCounters(ctx context.Context, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Counters, *errors.ServerError) {
	return v1limiter.Counters{{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.Int(1)}}, Properties: &v1limiter.CounteProperties{Counters: vp(int64(1))}}, State: &v1limiter.CounterState{}}}, b.got("QueryCounters", "", "", q)
}

func TestVerifP19Limiter(t *testing.T) {
	b := &vbroker{}
	query := []string{`{}`, `{"Selection":{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"Comparison":"=","TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}}`}
	badQuery := []string{`{"Selection":{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"Comparison":"~","TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}}`, `{"Selection":{"MinNumberOfKeyValues":3,"MaxNumberOfKeyValues":1,"IDs":[""]}}`}
	badQuery = badQuery[:1]
	kv := `{"a":{"Type":8,"Data":"1"}}`
	match := []string{`{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}`}
	badMatch := []string{`{}`, `null`, `{"KeyValues":{}}`, `{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"TypeRestrictions":{"MinDataType":9,"MaxDataType":8}}}}`}
	rule := func(l string) string {
		return `{"Spec":{"DBDefinition":{"GroupByKeyValues":` + kv + `},"Properties":{` + l + `}}}`
	}
	counter := func(l string) string {
		return `{"Spec":{"DBDefinition":{"KeyValues":` + kv + `},"Properties":{` + l + `}}}`
	}
	limits := []string{`{"Limit":-1}`, `{"Limit":0}`, `{"Limit":9}`}
	badLimits := []string{`{}`, `null`, `{"Limit":-2}`}
	rules := []string{rule(`"Limit":-1`), rule(`"Limit":0`)}
	badRules := []string{`{}`, `null`, `{"Spec":{}}`, rule(``), rule(`"Limit":-2`), `{"Spec":{"DBDefinition":{"GroupByKeyValues":{}},"Properties":{"Limit":1}}}`, `{"Spec":{"Properties":{"Limit":1}}}`}
	badCounters := []string{`{}`, `null`, `{"Spec":{}}`, counter(``), `{"Spec":{"DBDefinition":{"KeyValues":{}},"Properties":{"Counters":1}}}`, `{"Spec":{"Properties":{"Counters":1}}}`}
	one := "/v1/limiter/rules/r1"
	n := vrun(t, b, func(m *urlrouter.Router) {
		AddV1LimiterRoutes(vlog, m, handlers.NewGroupRuleHandler(context.Background(), &clients.Config{URL: "http://127.0.0.1:1"}, vr{b}, vr{b}))
	}, []vroute{
		{method: "POST", path: "/v1/limiter/rules", op: "CreateRule", ok: 201, same: true, good: rules, bad: badRules},
		{method: "GET", path: "/v1/limiter/rules/query", op: "QueryRules", ok: 200, good: query, bad: badQuery},
		{method: "GET", path: "/v1/limiter/rules/match", op: "MatchRules", ok: 200, good: match, bad: badMatch},
		{method: "GET", path: one, op: "GetRule", name: "r1", ok: 200},
		{method: "PUT", path: one, op: "UpdateRule", name: "r1", ok: 200, same: true, good: limits, bad: badLimits},
		{method: "DELETE", path: one, op: "DeleteRule", name: "r1", ok: 204},
		{method: "POST", path: one + "/overrides", op: "CreateOverride", name: "r1", ok: 201, same: true, good: rules, bad: badRules},
		{method: "GET", path: one + "/overrides/query", op: "QueryOverrides", name: "r1", ok: 200, good: query, bad: badQuery},
		{method: "GET", path: one + "/overrides/match", op: "MatchOverrides", name: "r1", ok: 200, good: match, bad: badMatch},
		{method: "GET", path: one + "/overrides/o1", op: "GetOverride", name: "r1", sub: "o1", ok: 200},
		{method: "PUT", path: one + "/overrides/o1", op: "UpdateOverride", name: "r1", sub: "o1", ok: 200, same: true, good: limits, bad: badLimits},
		{method: "DELETE", path: one + "/overrides/o1", op: "DeleteOverride", name: "r1", sub: "o1", ok: 204},
		{method: "PUT", path: "/v1/limiter/counters", op: "IncrementCounters", ok: 200, same: true, good: []string{counter(`"Counters":1`), counter(`"Counters":9223372036854775807`)}, bad: badCounters},
		{method: "PUT", path: "/v1/limiter/counters", op: "DecrementCounters", ok: 200, same: true, good: []string{counter(`"Counters":0`), counter(`"Counters":-1`)}, bad: badCounters},
		{method: "GET", path: "/v1/limiter/counters/query", op: "QueryCounters", ok: 200, good: query, bad: badQuery},
		{method: "PUT", path: "/v1/limiter/counters/set", op: "SetCounter", ok: 200, same: true, good: []string{counter(`"Counters":0`), counter(`"Counters":5`)}, bad: badCounters},
	}, func(r vroute, w *vwriter) string { return "" })
	fmt.Println("VERIF-CASES handler-requests", n)
}
