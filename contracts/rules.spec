# Rules and overrides of the limiter: the clients that keep them.
package internal/datastructures/btree_one_to_many
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import datatypes pkg/models/datatypes
declare otmStored(t any, v any) bool
declare otmAs(t any, one string, many string) any
declare otmValue(a any) any
declare otmOne(a any) string
declare otmMany(a any) string
declare otmHas(a any, k string) bool
declare otmMatches(t any, one string, m *qm.MatchActionQuery, a any) bool
declare otmSelects(t any, one string, q *qa.AssociatedActionQuery, a any) bool
axiom forall a any, b any {otmMany(a), otmMany(b)} :: otmMany(a) == otmMany(b) ==> a == b
# what the last operation was asked and gave to its callbacks
ghost om_ops int
ghost om_op string
ghost om_one string
ghost om_many string
ghost om_query *qa.AssociatedActionQuery
ghost om_match *qm.MatchActionQuery
ghost om_kvs map[string]datatypes.EncapsulatedValue
ghost om_calls int
ghost om_stopped bool
ghost om_removed bool
ghost om_err error
define otmItem(t any, one string, a any) bool = a != nil && otmStored(t, otmValue(a)) && otmOne(a) == one && otmValue(a) == otmAs(t, one, otmMany(a))
func OneToManyItem.Value(a) (v)
  ensures v == otmValue(a)
func OneToManyItem.OneID(a) (id)
  ensures id == otmOne(a)
func OneToManyItem.ManyID(a) (id)
  ensures id == otmMany(a)
func OneToManyItem.ManyKeyValues(a) (m)
  ensures m != nil && isfresh(m) && anyKVs(m)
  ensures forall k string {k in m} :: k in m ==> otmHas(a, k)
  ensures forall k string {otmHas(a, k)} :: otmHas(a, k) ==> k in m
func BTreeOneToMany.CreateOrFind(t, one, kvs, onCreate, onFind) (id, err)
  calls onCreate() maybe
    yields [result-belongs-to-the-index] ret == nil || otmStored(t, ret)
  calls onFind(a OneToManyItem) maybe if !called_onCreate
    where otmItem(t, one, a)
  set om_ops = om_ops + 1
  set om_op = "CreateOrFind"
  set om_one = one
  set om_kvs = kvs
  set om_many = id
  set om_calls = called_onFind ? 1 : 0
  set om_err = err
  ensures err != nil ==> !called_onCreate && !called_onFind
  ensures err == nil ==> called_onCreate || called_onFind
  ensures err == nil ==> id != ""
func BTreeOneToMany.QueryAction(t, one, query, onIterate) (err)
  requires [a-query] query != nil && (qvalid(query) || plainQuery(query) && selValid(query.Selection))
  calls onIterate(a OneToManyItem) many all stop
    where otmItem(t, one, a) && otmSelects(t, one, query, a) && (soleID(query) ==> otmMany(a) == query.Selection.IDs[0])
  set om_ops = om_ops + 1
  set om_op = "QueryAction"
  set om_one = one
  set om_query = query
  set om_calls = count_onIterate
  set om_stopped = stopped_onIterate
  set om_err = err
  ensures err != nil ==> count_onIterate == 0
func BTreeOneToMany.MatchAction(t, one, match, onIterate) (err)
  requires [a-match] match != nil && matchOK(match)
  calls onIterate(a OneToManyItem) many all stop
    where otmItem(t, one, a) && otmMatches(t, one, match, a) && (forall k string {otmHas(a, k)} :: otmHas(a, k) ==> k in match.KeyValues)
  set om_ops = om_ops + 1
  set om_op = "MatchAction"
  set om_one = one
  set om_match = match
  set om_calls = count_onIterate
  set om_stopped = stopped_onIterate
  set om_err = err
  ensures err != nil ==> count_onIterate == 0
func BTreeOneToMany.DestroyOneOfManyByID(t, one, many, canDelete) (err)
  calls canDelete(a OneToManyItem) maybe
    where otmItem(t, one, a) && otmMany(a) == many
  set om_ops = om_ops + 1
  set om_op = "DestroyOneOfManyByID"
  set om_one = one
  set om_many = many
  set om_calls = called_canDelete ? 1 : 0
  set om_removed = called_canDelete && ret_canDelete
  set om_err = err
  ensures err != nil ==> !called_canDelete
func BTreeOneToMany.DestroyOne(t, one, canDelete) (err)
  calls canDelete(a OneToManyItem) many stop
    where otmItem(t, one, a)
  set om_ops = om_ops + 1
  set om_op = "DestroyOne"
  set om_one = one
  set om_calls = count_canDelete
  set om_stopped = stopped_canDelete
  set om_err = err
  ensures err != nil ==> count_canDelete == 0

# ---------- one rule, one override ----------
package internal/limiter/rules
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import memory internal/limiter/rules/memory
ghost rule_limit smap[any]int
ghost ru_new int
ghost ru_new_with *v1limiter.RuleProperties
ghost ru_made Rule
ghost ru_upd int
ghost ru_upd_on any
ghost ru_upd_with *v1limiter.RuleProperties
ghost ru_upd_err *errors.ServerError
ghost ru_del int
ghost ru_del_on any
ghost ru_del_err *errors.ServerError
func Rule.Limit(r) (n)
  ensures n == rule_limit[r] && n >= 0 - 1
func Rule.Update(r, p) (err)
  requires [valid] p != nil && limitOK(p.Limit)
  set ru_upd = ru_upd + 1
  set ru_upd_on = r
  set ru_upd_with = p
  set ru_upd_err = err
  modifies ghost rule_limit
  ensures srvErr(err)
func Rule.Delete(r) (err)
  set ru_del = ru_del + 1
  set ru_del_on = r
  set ru_del_err = err
  ensures srvErr(err)
func RuleConstructor.New(c, p) (r)
  requires [valid] p != nil && limitOK(p.Limit)
  set ru_new = ru_new + 1
  set ru_new_with = p
  set ru_made = r
  modifies ghost rule_limit
  ensures r != nil && is(r, Rule)
func NewRuleConstructor(kind) (c, err)
  property P13
  modifies
  ensures [a-rule-backend-or-an-error] (err == nil) == (kind == "memory") && (err == nil) == (c != nil)
func *memoryConstrutor.New(mc, p) (r)
  property P13
  requires p != nil && limitOK(p.Limit)
  modifies
  ensures [limit-kept] is(r, *memory.rule) && memRuleOK(as(r, *memory.rule)) && *as(r, *memory.rule).properties.Limit == *p.Limit

package internal/limiter/rules/memory
import v1limiter pkg/models/api/limiter/v1
define memRuleOK(r *rule) bool = r != nil && r.lock != nil && r.properties != nil && limitOK(r.properties.Limit)
func New(p) (r)
  property P13
  requires p != nil && limitOK(p.Limit)
  modifies
  ensures [limit-kept] memRuleOK(r) && *r.properties.Limit == *p.Limit && isfresh(r)
func *rule.Limit(r) (n)
  property P13,P11
  requires memRuleOK(r)
  modifies
  ensures [the-limit] n == *r.properties.Limit && n >= 0 - 1
func *rule.Update(r, p) (err)
  property P13
  requires memRuleOK(r) && p != nil && limitOK(p.Limit)
  modifies r.properties
  ensures [limit-replaced] err == nil && memRuleOK(r) && *r.properties.Limit == *p.Limit
func *rule.Delete(r) (err)
  property P13
  modifies
  ensures [never-refused] err == nil

package internal/limiter/overrides
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import memory internal/limiter/overrides/memory
ghost over_limit smap[any]int
ghost oo_new int
ghost oo_new_with *v1limiter.OverrideProperties
ghost oo_upd int
ghost oo_upd_on any
ghost oo_upd_with *v1limiter.OverrideProperties
ghost oo_del int
ghost oo_del_err *errors.ServerError
ghost oo_refused bool
func Override.Limit(r) (n)
  ensures n == over_limit[r] && n >= 0 - 1
func Override.Update(r, p) ()
  requires [valid] p != nil && limitOK(p.Limit)
  set oo_upd = oo_upd + 1
  set oo_upd_on = r
  set oo_upd_with = p
  modifies ghost over_limit
func Override.Delete(r) (err)
  set oo_del = oo_del + 1
  set oo_del_err = err
  set oo_refused = oo_refused || err != nil
  ensures srvErr(err)
func OverrideConstructor.New(c, p) (r)
  requires [valid] p != nil && limitOK(p.Limit)
  set oo_new = oo_new + 1
  set oo_new_with = p
  modifies ghost over_limit
  ensures r != nil && is(r, Override)
func NewOverrideConstructor(kind) (c, err)
  property P13
  modifies
  ensures [an-override-backend-or-an-error] (err == nil) == (kind == "memory") && (err == nil) == (c != nil)
func *memoryConstrutor.New(mc, p) (r)
  property P13
  requires p != nil && limitOK(p.Limit)
  modifies
  ensures [limit-kept] is(r, *memory.overrideMemory) && memOverOK(as(r, *memory.overrideMemory)) && *as(r, *memory.overrideMemory).properties.Limit == *p.Limit

package internal/limiter/overrides/memory
import v1limiter pkg/models/api/limiter/v1
define memOverOK(r *overrideMemory) bool = r != nil && r.lock != nil && r.properties != nil && limitOK(r.properties.Limit)
func New(p) (r)
  property P13
  requires p != nil && limitOK(p.Limit)
  modifies
  ensures [limit-kept] memOverOK(r) && *r.properties.Limit == *p.Limit && isfresh(r)
func *overrideMemory.Limit(r) (n)
  property P13,P11
  requires memOverOK(r)
  modifies
  ensures [the-limit] n == *r.properties.Limit && n >= 0 - 1
func *overrideMemory.Update(r, p) ()
  property P13
  requires memOverOK(r) && p != nil && limitOK(p.Limit)
  modifies r.properties
  ensures [limit-replaced] memOverOK(r) && *r.properties.Limit == *p.Limit
func *overrideMemory.Delete(r) (err)
  property P13
  modifies
  ensures [never-refused] err == nil

# ---------- the overrides of a rule ----------
package internal/limiter/overrides
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import otm internal/datastructures/btree_one_to_many
define ocl_ok(c *overridesClientLocal) bool = c != nil && c.overrides != nil && c.constructor != nil
define overridesIn(t any, v any) bool = otmStored(t, v) == (is(v, Override) && v != nil)
define oountouched() bool = oo_new == 0 && oo_upd == 0 && oo_del == 0 && !oo_refused
# the answer describes an item of the tree
define overrideOf(o *v1limiter.Override, a any, limit int) bool = o != nil && overrideSpecOK(o.Spec) && o.State != nil && o.State.ID == otmMany(a) && *o.Spec.Properties.Limit == limit
define overrideKeys(o *v1limiter.Override, a any) bool = (forall k string {k in o.Spec.DBDefinition.GroupByKeyValues} :: (k in o.Spec.DBDefinition.GroupByKeyValues) == otmHas(a, k))
define anyMatchOf(m *qm.MatchActionQuery, kvs datatypes.KeyValues) bool = m != nil && m.MinNumberOfPermutationKeyValues == nil && m.MaxNumberOfPermutationKeyValues == nil && (forall k string :: (k in m.KeyValues) == (k in kvs)) && (forall k string :: k in kvs ==> m.KeyValues[k].Value == kvs[k] && m.KeyValues[k].TypeRestrictions.MinDataType == kvs[k].Type && m.KeyValues[k].TypeRestrictions.MaxDataType == datatypes.T_any)
func errorMissingOverrideName(name) (err)
  property P13
  modifies
  ensures [not-found] err != nil && isfresh(err) && err.StatusCode == 404 && err.Message != ""
func *overridesClientLocal.CreateOverride(c, ctx, ruleID, override) (id, err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [valid] override != nil && overrideSpecOK(override.Spec)
  modifies ghosts
  ensures [asked-once-under-the-rule] om_ops == 1 && om_op == "CreateOrFind" && om_one == ruleID && om_kvs == override.Spec.DBDefinition.GroupByKeyValues
  ensures [created-as-given-or-refused] err == nil ==> oo_new == 1 && oo_new_with == override.Spec.Properties && id == om_many && id != ""
  ensures [refused-creates-nothing] err != nil ==> oo_new == 0
  ensures [status] (om_calls == 1 || om_err == otm.ErrorManyIDDestroying ==> err != nil && err.StatusCode == 409) && (om_err != nil && om_err != otm.ErrorManyIDDestroying ==> err != nil && err.StatusCode == 500)
  ensures [nothing-else] oo_upd == 0 && oo_del == 0
  ensures srvErr(err)
func *overridesClientLocal.GetOverride(c, ctx, ruleID, name) (o, err)
  property P13
  option merge on
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [named] name != ""
  modifies ghosts
  ensures [reads-only] oountouched()
  ensures [asked-for-the-named-one] om_ops == 1 && om_op == "QueryAction" && om_one == ruleID && soleID(om_query) && om_query.Selection.IDs[0] == name && len(om_query.Selection.KeyValues) == 0
  ensures [missing] om_err == nil && om_calls == 0 ==> err != nil && err.StatusCode == 404 && o == nil
  ensures [found] om_err == nil && om_calls > 0 ==> err == nil && o != nil && overrideSpecOK(o.Spec) && o.State != nil && o.State.ID == name && *o.Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, name)]
  ensures [found-keys] om_err == nil && om_calls > 0 ==> (forall a any {otmMany(a)} :: otmMany(a) == name ==> (forall k string {otmHas(a, k)} :: otmHas(a, k) == (k in o.Spec.DBDefinition.GroupByKeyValues)))
  ensures [failed] om_err != nil ==> err != nil && err.StatusCode == 500 && o == nil
  ensures srvErr(err)
func *overridesClientLocal.UpdateOverride(c, ctx, ruleID, name, update) (err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [valid] name != "" && update != nil && limitOK(update.Limit)
  modifies ghosts
  ensures [asked-for-the-named-one] om_ops == 1 && om_op == "QueryAction" && om_one == ruleID && soleID(om_query) && om_query.Selection.IDs[0] == name && len(om_query.Selection.KeyValues) == 0
  ensures [missing] om_err == nil && om_calls == 0 ==> err != nil && err.StatusCode == 404 && oo_upd == 0
  ensures [changed-once-as-given] om_err == nil && om_calls > 0 ==> err == nil && oo_upd == 1 && oo_upd_on == otmAs(c.overrides, ruleID, name) && oo_upd_with == update
  ensures [failed] om_err != nil ==> err != nil && err.StatusCode == 500 && oo_upd == 0
  ensures [nothing-else] oo_new == 0 && oo_del == 0
  ensures srvErr(err)
func *overridesClientLocal.DestroyOverride(c, ctx, ruleID, name) (err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  modifies ghosts
  ensures [the-named-one] om_ops == 1 && om_op == "DestroyOneOfManyByID" && om_one == ruleID && om_many == name
  ensures [removed-unless-it-refuses] om_calls == oo_del && (om_calls == 1 ==> om_removed == (oo_del_err == nil))
  ensures [success-when-removed-or-gone] om_err == nil && !oo_refused ==> err == nil
  ensures [status] (om_err != nil && om_err != otm.ErrorManyIDDestroying) || oo_refused ==> err != nil && err.StatusCode == 500
  ensures [nothing-else] oo_new == 0 && oo_upd == 0
  ensures srvErr(err)
func *overridesClientLocal.DestroyOverrides(c, ctx, ruleID) (err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  modifies ghosts
  ensures [all-of-the-rule] om_ops == 1 && om_op == "DestroyOne" && om_one == ruleID
  ensures [each-asked-once] oo_del == om_calls
  ensures [stops-at-a-refusal] om_stopped == oo_refused
  ensures [success-exactly-when-none-refused] (err == nil) == (om_err == nil && !oo_refused)
  ensures [status] err != nil ==> err.StatusCode == 500
  ensures [nothing-else] oo_new == 0 && oo_upd == 0
  ensures srvErr(err)
  loop 1
    local deleteErr *errors.ServerError
    invariant oo_del == $k && !oo_refused && deleteErr == nil
    invariant oo_new == 0 && oo_upd == 0
func *overridesClientLocal.QueryOverrides(c, ctx, ruleID, query) (os, err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [valid] query != nil && qvalid(query)
  modifies ghosts
  ensures [reads-only] oountouched()
  ensures [what-was-asked] om_ops == 1 && om_op == "QueryAction" && om_one == ruleID && om_query == query
  ensures [each-once] err == nil ==> len(os) == om_calls && !om_stopped
  ensures [as-stored] err == nil ==> overridesOK(os) && (forall i int {os[i]} :: 0 <= i && i < len(os) ==> os[i].State != nil && *os[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, os[i].State.ID)])
  ensures [status] (err == nil) == (om_err == nil) && (err != nil ==> err.StatusCode == 500 && len(os) == 0)
  ensures srvErr(err)
  loop 1
    local overrides v1limiter.Overrides
    invariant len(overrides) == $k && oountouched()
    invariant overridesOK(overrides)
    invariant forall i int {overrides[i]} :: 0 <= i && i < len(overrides) ==> *overrides[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, overrides[i].State.ID)]
func *overridesClientLocal.MatchOverrides(c, ctx, ruleID, match) (os, err)
  property P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [valid] match != nil && matchOK(match)
  modifies ghosts
  ensures [reads-only] oountouched()
  ensures [what-was-asked] om_ops == 1 && om_op == "MatchAction" && om_one == ruleID && om_match == match
  ensures [each-once] err == nil ==> len(os) == om_calls && !om_stopped
  ensures [as-stored] err == nil ==> overridesOK(os) && (forall i int {os[i]} :: 0 <= i && i < len(os) ==> os[i].State != nil && *os[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, os[i].State.ID)])
  ensures [status] (err == nil) == (om_err == nil) && (err != nil ==> err.StatusCode == 500 && len(os) == 0)
  ensures srvErr(err)
  loop 1
    local overrides v1limiter.Overrides
    invariant len(overrides) == $k && oountouched()
    invariant overridesOK(overrides)
    invariant forall i int {overrides[i]} :: 0 <= i && i < len(overrides) ==> *overrides[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, overrides[i].State.ID)]
func *overridesClientLocal.FindOverrideLimits(c, ctx, ruleID, kvs) (os, err)
  property P11,P13
  requires ocl_ok(c) && ctx != nil && hasLogger(ctx) && oountouched() && om_ops == 0
  requires [definition] forall v any {otmStored(c.overrides, v)} :: overridesIn(c.overrides, v)
  requires [valid] typedKVs(kvs)
  modifies ghosts
  ensures [reads-only] oountouched()
  ensures [every-override-inside-the-key-values] om_ops == 1 && om_op == "MatchAction" && om_one == ruleID && anyMatchOf(om_match, kvs)
  ensures [each-once] err == nil ==> len(os) == om_calls
  ensures [stops-only-behind-a-limit-of-zero] err == nil && om_stopped ==> len(os) > 0 && *os[len(os)-1].Spec.Properties.Limit == 0
  ensures [new-list] err == nil && len(os) > 0 ==> isfresh(arr(os))
  ensures [as-stored] err == nil ==> overrideLimits(os, kvs) && (forall i int {os[i]} :: 0 <= i && i < len(os) ==> *os[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, os[i].State.ID)])
  ensures [status] (err == nil) == (om_err == nil) && (err != nil ==> err.StatusCode == 500)
  ensures srvErr(err)
  loop 1
    local overrides v1limiter.Overrides
    invariant len(overrides) == $k && oountouched()
    invariant overrideLimits(overrides, kvs)
    invariant forall i int {overrides[i]} :: 0 <= i && i < len(overrides) ==> *overrides[i].Spec.Properties.Limit == over_limit[otmAs(c.overrides, ruleID, overrides[i].State.ID)]

# the overrides as the rules see them
ghost ov_n int
ghost ov_op string
ghost ov_rule string
ghost ov_name string
ghost ov_doc any
ghost ov_id string
ghost ov_err *errors.ServerError
ghost ov_list v1limiter.Overrides
ghost ov_one *v1limiter.Override
ghost ov_kvs datatypes.KeyValues
ghost ov_found smap[string]v1limiter.Overrides
func OverrideClient.CreateOverride(c, ctx, ruleID, override) (id, err)
  requires [valid] override != nil && overrideSpecOK(override.Spec)
  set ov_n = ov_n + 1
  set ov_op = "CreateOverride"
  set ov_rule = ruleID
  set ov_doc = box(override, *v1limiter.Override)
  set ov_id = id
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.UpdateOverride(c, ctx, ruleID, name, override) (err)
  requires [valid] override != nil && limitOK(override.Limit)
  set ov_n = ov_n + 1
  set ov_op = "UpdateOverride"
  set ov_rule = ruleID
  set ov_name = name
  set ov_doc = box(override, *v1limiter.OverrideProperties)
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.GetOverride(c, ctx, ruleID, name) (o, err)
  set ov_n = ov_n + 1
  set ov_op = "GetOverride"
  set ov_rule = ruleID
  set ov_name = name
  set ov_one = o
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.QueryOverrides(c, ctx, ruleID, query) (os, err)
  requires [valid] query != nil && qvalid(query)
  set ov_n = ov_n + 1
  set ov_op = "QueryOverrides"
  set ov_rule = ruleID
  set ov_doc = box(query, *qa.AssociatedActionQuery)
  set ov_list = os
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.MatchOverrides(c, ctx, ruleID, match) (os, err)
  requires [valid] match != nil && matchOK(match)
  set ov_n = ov_n + 1
  set ov_op = "MatchOverrides"
  set ov_rule = ruleID
  set ov_doc = box(match, *qm.MatchActionQuery)
  set ov_list = os
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.DestroyOverride(c, ctx, ruleID, name) (err)
  set ov_n = ov_n + 1
  set ov_op = "DestroyOverride"
  set ov_rule = ruleID
  set ov_name = name
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.DestroyOverrides(c, ctx, ruleID) (err)
  set ov_n = ov_n + 1
  set ov_op = "DestroyOverrides"
  set ov_rule = ruleID
  set ov_err = err
  ensures srvErr(err)
func OverrideClient.FindOverrideLimits(c, ctx, ruleID, kvs) (os, err)
  requires [valid] typedKVs(kvs)
  set ov_n = ov_n + 1
  set ov_op = "FindOverrideLimits"
  set ov_rule = ruleID
  set ov_kvs = kvs
  set ov_err = err
  set ov_found = upd(ov_found, ruleID, os)
  ensures srvErr(err) && (err != nil ==> err.StatusCode == 500)
  ensures err == nil ==> (forall j int {os[j]} :: 0 <= j && j < len(os) ==> overFlat(os[j]))
  ensures err == nil ==> (forall j int, k string {k in os[j].Spec.DBDefinition.GroupByKeyValues} :: 0 <= j && j < len(os) && k in os[j].Spec.DBDefinition.GroupByKeyValues ==> k in kvs && okKV(os[j].Spec.DBDefinition.GroupByKeyValues[k]))
  ensures err == nil && len(os) > 0 ==> isfresh(arr(os)) && overFlat(os[len(os)-1])

# ---------- the rules ----------
package internal/limiter/rules
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import assoc internal/datastructures/btree_associated
define rc_ok(c *localRulesCient) bool = c != nil && c.rules != nil && c.ruleConstructor != nil && c.overridesClient != nil
define rulesIn(t any, v any) bool = stored(t, v) == (is(v, Rule) && v != nil)
define ruuntouched() bool = ru_new == 0 && ru_upd == 0 && ru_del == 0
define ovuntouched() bool = ov_n == 0
define namedQuery(name string) bool = ix_ops == 1 && ix_op == "QueryAction" && soleID(ix_query) && ix_query.Selection.IDs[0] == name && len(ix_query.Selection.KeyValues) == 0
func errorMissingRuleName(name) (err)
  property P13
  modifies
  ensures [not-found] err != nil && isfresh(err) && err.StatusCode == 404 && err.Message != ""
func *localRulesCient.CreateRule(rm, ctx, rule) (id, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] rule != nil && ruleSpecOK(rule.Spec)
  modifies ghosts
  ensures [asked-once] ix_ops == 1 && ix_op == "Create" && ix_kvs == rule.Spec.DBDefinition.GroupByKeyValues
  ensures [created-as-given] err == nil ==> ru_new == 1 && ru_new_with == rule.Spec.Properties && id == ix_id && id != ""
  ensures [refused-creates-nothing] err != nil ==> ru_new == 0 && id == ""
  ensures [status] err != nil ==> err.StatusCode == (ix_err == assoc.ErrorTreeItemDestroying || ix_err == assoc.ErrorKeyValuesAlreadyExists || ix_err == assoc.ErrorAssociatedIDAlreadyExists ? 409 : 500)
  ensures [nothing-else] ru_upd == 0 && ru_del == 0 && ovuntouched()
  ensures srvErr(err)
func *localRulesCient.GetRule(rm, ctx, name) (r, err)
  property P13
  option merge on
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  modifies ghosts
  ensures [reads-only] ruuntouched() && ovuntouched()
  ensures [asked-for-the-named-one] namedQuery(name)
  ensures [missing] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && r == nil
  ensures [found] ix_calls > 0 ==> err == nil && r != nil && ruleOK(r) && r.State != nil && r.State.ID == name && *r.Spec.Properties.Limit == rule_limit[storedAs(rm.rules, name)]
  ensures [found-keys] ix_calls > 0 ==> (forall a any, k string {akvHas(a, k)} :: akvID(a) == name ==> akvHas(a, k) == (k in r.Spec.DBDefinition.GroupByKeyValues))
  ensures srvErr(err)
  loop 1
    local apiRule *v1limiter.Rule
    local errorMissingRuleName *errors.ServerError
    invariant ruuntouched() && ovuntouched() && (forall a any {$seen[a]} :: $seen[a] ==> akvID(a) == name) && $k <= 1 && ($k == 1) == (exists a any :: $seen[a])
    invariant $k == 0 ==> errorMissingRuleName != nil && errorMissingRuleName.StatusCode == 404 && errorMissingRuleName.Message != "" && apiRule == nil
    invariant $k == 1 ==> errorMissingRuleName == nil && apiRule != nil && ruleSpecOK(apiRule.Spec) && apiRule.State != nil && len(apiRule.State.Overrides) == 0 && apiRule.State.ID == name && *apiRule.Spec.Properties.Limit == rule_limit[storedAs(rm.rules, name)]
    invariant $k == 1 ==> (forall a any, k string {akvHas(a, k)} :: akvID(a) == name ==> akvHas(a, k) == (k in apiRule.Spec.DBDefinition.GroupByKeyValues))
func *localRulesCient.UpdateRule(rm, ctx, name, update) (err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] update != nil && limitOK(update.Limit)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(name)
  ensures [missing] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ru_upd == 0
  ensures [changed-once-as-given] ix_calls > 0 ==> err == ru_upd_err && ru_upd == 1 && ru_upd_on == storedAs(rm.rules, name) && ru_upd_with == update
  ensures [nothing-else] ru_new == 0 && ru_del == 0 && ovuntouched()
  ensures srvErr(err)
func *localRulesCient.DeleteRule(rm, ctx, name) (err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  modifies ghosts
  ensures [the-named-one] ix_ops == 1 && ix_op == "DestroyByAssociatedID" && ix_id == name
  ensures [missing] ix_err == nil && ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ruuntouched() && ovuntouched()
  ensures [overrides-first] ix_calls == 1 ==> ov_n == 1 && ov_op == "DestroyOverrides" && ov_rule == name
  ensures [kept-while-overrides-remain] ix_calls == 1 && ov_err != nil ==> err == ov_err && ru_del == 0 && !ix_removed
  ensures [removed-unless-it-refuses] ix_calls == 1 && ov_err == nil ==> ru_del == 1 && ru_del_on == storedAs(rm.rules, name) && err == ru_del_err && ix_removed == (err == nil)
  ensures [status] ix_err != nil ==> err != nil && err.StatusCode == (ix_err == assoc.ErrorTreeItemDestroying ? 409 : 500) && ruuntouched() && ovuntouched()
  ensures [nothing-else] ru_new == 0 && ru_upd == 0
  ensures srvErr(err)
func *localRulesCient.QueryRules(rm, ctx, query) (rs, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] query != nil && qvalid(query)
  modifies ghosts
  ensures [reads-only] ruuntouched() && ovuntouched()
  ensures [what-was-asked] ix_ops == 1 && ix_op == "QueryAction" && ix_query == query
  ensures [each-once] err == nil ==> len(rs) == ix_calls && !ix_stopped
  ensures [as-stored] err == nil ==> rulesOK(rs) && (forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> rs[i].State != nil && *rs[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, rs[i].State.ID)])
  ensures srvErr(err)
  loop 1
    local foundRules v1limiter.Rules
    invariant len(foundRules) == $k && ruuntouched() && ovuntouched()
    invariant forall i int {foundRules[i]} :: 0 <= i && i < len(foundRules) ==> foundRules[i] != nil && ruleSpecOK(foundRules[i].Spec) && foundRules[i].State != nil && len(foundRules[i].State.Overrides) == 0
    invariant forall i int {foundRules[i]} :: 0 <= i && i < len(foundRules) ==> foundRules[i].State != nil && *foundRules[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, foundRules[i].State.ID)]
func *localRulesCient.MatchRules(rm, ctx, match) (rs, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] match != nil && matchOK(match)
  modifies ghosts
  ensures [reads-only] ruuntouched() && ovuntouched()
  ensures [what-was-asked] ix_ops == 1 && ix_op == "MatchAction" && ix_match == match
  ensures [each-once] err == nil ==> len(rs) == ix_calls && !ix_stopped
  ensures [as-stored] err == nil ==> rulesOK(rs) && (forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> rs[i].State != nil && *rs[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, rs[i].State.ID)])
  ensures srvErr(err)
  loop 1
    local foundRules v1limiter.Rules
    invariant len(foundRules) == $k && ruuntouched() && ovuntouched()
    invariant forall i int {foundRules[i]} :: 0 <= i && i < len(foundRules) ==> foundRules[i] != nil && ruleSpecOK(foundRules[i].Spec) && foundRules[i].State != nil && len(foundRules[i].State.Overrides) == 0
    invariant forall i int {foundRules[i]} :: 0 <= i && i < len(foundRules) ==> foundRules[i].State != nil && *foundRules[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, foundRules[i].State.ID)]
func *localRulesCient.CreateOverride(rm, ctx, name, override) (id, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] override != nil && overrideSpecOK(override.Spec)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(name)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0 && id == ""
  ensures [once-for-the-rule] ov_n <= 1 && (ov_n == 1 ==> ix_calls > 0 && ov_op == "CreateOverride" && ov_rule == name && ov_doc == box(override, *v1limiter.Override) && id == ov_id && err == ov_err)
  ensures [extends-the-rule] ov_n == 1 ==> (forall a any, k string {akvHas(a, k)} :: akvID(a) == name && akvHas(a, k) ==> k in override.Spec.DBDefinition.GroupByKeyValues)
  ensures [refused-otherwise] ix_calls > 0 && ov_n == 0 ==> err != nil && err.StatusCode == 400 && id == "" && (exists a any, k string :: akvID(a) == name && akvHas(a, k) && !(k in override.Spec.DBDefinition.GroupByKeyValues))
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
  loop 1
    invariant forall k string {$seen[k]} :: $seen[k] ==> k in override.Spec.DBDefinition.GroupByKeyValues
func *localRulesCient.GetOverride(rm, ctx, ruleName, name) (o, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(ruleName)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0 && o == nil
  ensures [forwarded-once] ix_calls > 0 ==> ov_n == 1 && ov_op == "GetOverride" && ov_rule == ruleName && ov_name == name && o == ov_one && err == ov_err
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
  loop 1
    local override *v1limiter.Override
    local overrideErr *errors.ServerError
    invariant ruuntouched() && ov_n == $k && (forall a any {$seen[a]} :: $seen[a] ==> akvID(a) == ruleName) && $k <= 1 && ($k == 1) == (exists a any :: $seen[a])
    invariant $k == 0 ==> overrideErr != nil && overrideErr.StatusCode == 404 && overrideErr.Message != "" && override == nil
    invariant $k > 0 ==> ov_op == "GetOverride" && ov_rule == ruleName && ov_name == name && override == ov_one && overrideErr == ov_err && overrideErr == nil
func *localRulesCient.UpdateOverride(rm, ctx, ruleName, name, update) (err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] update != nil && limitOK(update.Limit)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(ruleName)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0
  ensures [forwarded-once] ix_calls > 0 ==> ov_n == 1 && ov_op == "UpdateOverride" && ov_rule == ruleName && ov_name == name && ov_doc == box(update, *v1limiter.OverrideProperties) && err == ov_err
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
  loop 1
    local overrideErr *errors.ServerError
    invariant ruuntouched() && ov_n == $k && (forall a any {$seen[a]} :: $seen[a] ==> akvID(a) == ruleName) && $k <= 1 && ($k == 1) == (exists a any :: $seen[a])
    invariant $k == 0 ==> overrideErr != nil && overrideErr.StatusCode == 404 && overrideErr.Message != ""
    invariant $k > 0 ==> ov_op == "UpdateOverride" && ov_rule == ruleName && ov_name == name && ov_doc == box(update, *v1limiter.OverrideProperties) && overrideErr == ov_err && overrideErr == nil
func *localRulesCient.DeleteOverride(rm, ctx, ruleName, name) (err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(ruleName)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0
  ensures [forwarded-once] ix_calls > 0 ==> ov_n == 1 && ov_op == "DestroyOverride" && ov_rule == ruleName && ov_name == name && err == ov_err
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
func *localRulesCient.QueryOverrides(rm, ctx, ruleName, query) (os, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] query != nil && qvalid(query)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(ruleName)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0
  ensures [forwarded-once] ix_calls > 0 ==> ov_n == 1 && ov_op == "QueryOverrides" && ov_rule == ruleName && ov_doc == box(query, *qa.AssociatedActionQuery) && err == ov_err && (err == nil ==> os == ov_list)
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
  loop 1
    local overrides v1limiter.Overrides
    local overridesErr *errors.ServerError
    invariant ruuntouched() && ov_n == $k && (forall a any {$seen[a]} :: $seen[a] ==> akvID(a) == ruleName) && $k <= 1 && ($k == 1) == (exists a any :: $seen[a])
    invariant $k == 0 ==> overridesErr != nil && overridesErr.StatusCode == 404 && overridesErr.Message != ""
    invariant $k > 0 ==> ov_op == "QueryOverrides" && ov_rule == ruleName && ov_doc == box(query, *qa.AssociatedActionQuery) && overrides == ov_list && overridesErr == ov_err && overridesErr == nil
func *localRulesCient.MatchOverrides(rm, ctx, ruleName, match) (os, err)
  property P13
  requires rc_ok(rm) && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] match != nil && matchOK(match)
  modifies ghosts
  ensures [asked-for-the-named-one] namedQuery(ruleName)
  ensures [missing-rule] ix_calls == 0 ==> err != nil && err.StatusCode == 404 && ov_n == 0
  ensures [forwarded-once] ix_calls > 0 ==> ov_n == 1 && ov_op == "MatchOverrides" && ov_rule == ruleName && ov_doc == box(match, *qm.MatchActionQuery) && err == ov_err && (err == nil ==> os == ov_list)
  ensures [nothing-else] ruuntouched()
  ensures srvErr(err)
  loop 1
    local overrides v1limiter.Overrides
    local overridesErr *errors.ServerError
    invariant ruuntouched() && ov_n == $k && (forall a any {$seen[a]} :: $seen[a] ==> akvID(a) == ruleName) && $k <= 1 && ($k == 1) == (exists a any :: $seen[a])
    invariant $k == 0 ==> overridesErr != nil && overridesErr.StatusCode == 404 && overridesErr.Message != ""
    invariant $k > 0 ==> ov_op == "MatchOverrides" && ov_rule == ruleName && ov_doc == box(match, *qm.MatchActionQuery) && overrides == ov_list && overridesErr == ov_err && overridesErr == nil
define okKV(e datatypes.EncapsulatedValue) bool = wfEV(e) && datatypes.MinDataType <= e.Type && e.Type <= datatypes.MaxDataType
define overFlat(o *v1limiter.Override) bool = o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && len(o.Spec.DBDefinition.GroupByKeyValues) != 0 && o.Spec.Properties != nil && limitOK(o.Spec.Properties.Limit) && o.State != nil
# the limits of a counter: every matching rule, with every matching override, until one allows nothing
func localRulesCient.FindLimits(rm, ctx, kvs) (rs, err)
  property P11,P13
  option opaque wfEV
  requires rm.rules != nil && rm.ruleConstructor != nil && rm.overridesClient != nil && ctx != nil && hasLogger(ctx) && ruuntouched() && ovuntouched() && ix_ops == 0
  requires [definition] forall v any {stored(rm.rules, v)} :: rulesIn(rm.rules, v)
  requires [valid] typedKVs(kvs)
  modifies ghosts
  ensures [reads-only] ruuntouched()
  ensures [every-rule-inside-the-key-values] ix_ops == 1 && ix_op == "MatchAction" && anyMatchOf(ix_match, kvs)
  ensures [each-once] err == nil ==> len(rs) == ix_calls && ov_n == len(rs)
  ensures [overrides-of-the-same-key-values] ov_n > 0 ==> ov_op == "FindOverrideLimits" && ov_kvs == kvs
  ensures [stops-only-behind-a-limit-of-zero] err == nil && ix_stopped ==> len(rs) > 0 && *rs[len(rs)-1].Spec.Properties.Limit == 0 && (len(rs[len(rs)-1].State.Overrides) > 0 ==> *rs[len(rs)-1].State.Overrides[len(rs[len(rs)-1].State.Overrides)-1].Spec.Properties.Limit == 0)
  ensures [limits] err == nil ==> (forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> ruleLimits(rs[i], kvs))
  ensures [as-stored] err == nil ==> (forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> *rs[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, rs[i].State.ID)] && rs[i].State.Overrides == ov_found[rs[i].State.ID])
  ensures [status] err != nil ==> err.StatusCode == 500
  ensures [an-error-of-the-overrides-is-returned] ov_n > 0 && ov_err != nil ==> err != nil
  ensures srvErr(err)
  loop 1
    local rules v1limiter.Rules
    local limitErr *errors.ServerError
    invariant len(rules) == $k && ov_n == $k && ruuntouched() && limitErr == nil && ($k > 0 ==> ov_err == nil && ov_op == "FindOverrideLimits" && ov_kvs == kvs)
    invariant forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> rules[i] != nil && rules[i].Spec != nil && rules[i].Spec.DBDefinition != nil && len(rules[i].Spec.DBDefinition.GroupByKeyValues) != 0 && rules[i].Spec.Properties != nil && limitOK(rules[i].Spec.Properties.Limit) && rules[i].State != nil
    invariant forall i int, k string {k in rules[i].Spec.DBDefinition.GroupByKeyValues} :: 0 <= i && i < len(rules) && k in rules[i].Spec.DBDefinition.GroupByKeyValues ==> k in kvs && okKV(rules[i].Spec.DBDefinition.GroupByKeyValues[k])
    invariant forall i int, j int {rules[i].State.Overrides[j]} :: 0 <= i && i < len(rules) && 0 <= j && j < len(rules[i].State.Overrides) ==> overFlat(rules[i].State.Overrides[j])
    invariant forall i int, j int, k string {k in rules[i].State.Overrides[j].Spec.DBDefinition.GroupByKeyValues} :: 0 <= i && i < len(rules) && 0 <= j && j < len(rules[i].State.Overrides) && k in rules[i].State.Overrides[j].Spec.DBDefinition.GroupByKeyValues ==> k in kvs && okKV(rules[i].State.Overrides[j].Spec.DBDefinition.GroupByKeyValues[k])
    invariant forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> (exists a any :: $seen[a] && akvID(a) == rules[i].State.ID)
    invariant forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> *rules[i].Spec.Properties.Limit == rule_limit[storedAs(rm.rules, rules[i].State.ID)] && rules[i].State.Overrides == ov_found[rules[i].State.ID]
