# Rules, overrides and counters of the limiter.
package internal/limiter/rules
import v1limiter pkg/models/api/limiter/v1
import datatypes pkg/models/datatypes
ghost found v1limiter.Rules
define overrideLimits(os v1limiter.Overrides, kvs datatypes.KeyValues) bool = forall j int {os[j]} :: 0 <= j && j < len(os) ==> os[j] != nil && overrideSpecOK(os[j].Spec) && os[j].State != nil && (forall k string {k in os[j].Spec.DBDefinition.GroupByKeyValues} :: k in os[j].Spec.DBDefinition.GroupByKeyValues ==> k in kvs)
define ruleLimits(r *v1limiter.Rule, kvs datatypes.KeyValues) bool = r != nil && ruleSpecOK(r.Spec) && r.State != nil && (forall k string {k in r.Spec.DBDefinition.GroupByKeyValues} :: k in r.Spec.DBDefinition.GroupByKeyValues ==> k in kvs) && overrideLimits(r.State.Overrides, kvs)
func RuleClient.FindLimits(c, ctx, kvs) (rules, err)
  requires [valid] typedKVs(kvs)
  set found = rules
  ensures srvErr(err)
  ensures err != nil ==> err.StatusCode == 500
  ensures err == nil ==> (forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> ruleLimits(rules[i], kvs))

package pkg/clients/locker_client
import v1locker pkg/models/api/locker/v1
import datatypes pkg/models/datatypes
ghost lk_held int
ghost lk_keys set[string]
ghost lk_vals smap[string]datatypes.EncapsulatedValue
func LockerClient.ObtainLock(c, ctx, req, onErr) (l, err)
  requires [valid] req != nil && lockSpecOK(req.Spec) && req.State == nil
  set lk_held = l != nil ? lk_held + 1 : lk_held
  modifies ghost lk_keys, ghost lk_vals
  ensures l != nil && len(req.Spec.DBDefinition.KeyValues) == 1 ==> (forall k string {lk_keys[k]} :: k in req.Spec.DBDefinition.KeyValues ==> lk_keys[k] && lk_vals[k] == req.Spec.DBDefinition.KeyValues[k])
  ensures forall k string {lk_keys[k]} :: !(k in req.Spec.DBDefinition.KeyValues) ==> lk_keys[k] == old(lk_keys)[k] && lk_vals[k] == old(lk_vals)[k]
  ensures err != nil ==> l == nil
func Lock.Release(l, ctx) (err)
  set lk_held = lk_held - 1
func Lock.Done(l) (c)

package internal/limiter/counters
import v1limiter pkg/models/api/limiter/v1
import qa pkg/models/api/common/v1/query_associated_action
import v1 pkg/models/api/common/v1
import datatypes pkg/models/datatypes
import errors pkg/models/api/common/errors
import memory internal/limiter/counters/memory
import lockerclient pkg/clients/locker_client
ghost loaded int
ghost upd_n int
ghost upd_by int
ghost upd_to int
ghost set_n int
ghost set_to int
ghost made_n int
ghost made_with int
ghost asked_inc int
ghost asked_kvs map[string]datatypes.EncapsulatedValue
declare ksid(s set[string]) int
ghost room smap[int]set[int]
ghost denied bool
ghost denied_keys set[string]
ghost denied_limit int
func Counter.Load(c) (n)
  set loaded = loaded + n
  ensures n > 0
func Counter.Update(c, p) (n)
  requires p != nil && p.Counters != nil
  set upd_n = upd_n + 1
  set upd_by = *p.Counters
  set upd_to = n
func Counter.Set(c, p) ()
  requires [counters-are-positive] p != nil && p.Counters != nil && *p.Counters > 0
  set set_n = set_n + 1
  set set_to = *p.Counters
func CounterConstructor.New(cc, p) (c)
  requires [counters-are-positive] p != nil && p.Counters != nil && *p.Counters > 0
  set made_n = made_n + 1
  set made_with = *p.Counters
  ensures c != nil && is(c, Counter)
define cc_ok(c *counterClientLocal) bool = c != nil && c.counters != nil && c.rulesClient != nil && c.counterConstructor != nil && typedTree(c.counters)
define countersIn(t any, v any) bool = stored(t, v) == (is(v, Counter) && v != nil)
define untouched() bool = upd_n == 0 && set_n == 0 && made_n == 0
func *counterClientLocal.QueryCounters(cm, ctx, query) (cs, err)
  property P12
  requires cc_ok(cm) && ctx != nil && hasLogger(ctx) && untouched()
  requires [definition] forall v any {stored(cm.counters, v)} :: countersIn(cm.counters, v)
  requires [valid] query != nil && qvalid(query)
  modifies ghosts
  ensures [reads-only] untouched()
  ensures [what-was-asked] ix_op == "QueryAction" && ix_query == query
  ensures srvErr(err)
  loop 1
    local out v1limiter.Counters
    invariant [each-counter-once] len(out) == $k
    invariant untouched()
func *counterClientLocal.DecrementCounters(cm, ctx, counter) (err)
  property P12
  requires cc_ok(cm) && ctx != nil && hasLogger(ctx) && untouched() && ix_ops == 0
  requires [definition] forall v any {stored(cm.counters, v)} :: countersIn(cm.counters, v)
  requires [valid] counter != nil && counterSpecOK(counter.Spec)
  modifies ghosts
  ensures [the-counter-asked-for] ix_ops == 1 && ix_op == "Delete" && ix_kvs == counter.Spec.DBDefinition.KeyValues
  ensures [changed-once-by-the-amount] ix_calls == upd_n && upd_n <= 1 && set_n == 0 && made_n == 0 && (upd_n == 1 ==> upd_by == old(*counter.Spec.Properties.Counters))
  ensures [removed-exactly-at-zero-or-less] ix_removed == (upd_n == 1 && upd_to <= 0)
  ensures srvErr(err)
func *counterClientLocal.SetCounter(cm, ctx, counter) (err)
  property P12
  requires cc_ok(cm) && ctx != nil && hasLogger(ctx) && untouched() && ix_ops == 0
  requires [definition] forall v any {stored(cm.counters, v)} :: countersIn(cm.counters, v)
  requires [valid] counter != nil && counterSpecOK(counter.Spec)
  modifies ghosts
  ensures [the-counter-asked-for] ix_ops == 1 && ix_kvs == counter.Spec.DBDefinition.KeyValues
  ensures [positive-stored-once] old(*counter.Spec.Properties.Counters) > 0 ==> ix_op == "CreateOrFind" && upd_n == 0 && (err == nil ==> set_n + made_n == 1) && (err != nil ==> set_n + made_n == 0)
  ensures [exactly-the-value] (set_n == 1 ==> set_to == old(*counter.Spec.Properties.Counters)) && (made_n == 1 ==> made_with == old(*counter.Spec.Properties.Counters))
  ensures [zero-or-less-removes] old(*counter.Spec.Properties.Counters) <= 0 ==> ix_op == "Delete" && untouched() && ix_removed == (ix_calls == 1)
  ensures srvErr(err)
func NewCountersConstructor(kind) (c, err)
  property P12
  modifies
  ensures [a-counter-backend-or-an-error] (err == nil) == (kind == "memory") && (err == nil) == (c != nil)
func *memoryConstrutor.New(cc, p) (c)
  property P12
  requires p != nil && p.Counters != nil
  modifies
  ensures [value-kept] is(c, *memory.Counter) && counterOK(as(c, *memory.Counter)) && as(c, *memory.Counter).properties.Counters != p.Counters && *as(c, *memory.Counter).properties.Counters == *p.Counters

# the query for a group of keys: every counter with exactly the asked counter's values under those keys
define eqVQ(v qa.ValueQuery, e datatypes.EncapsulatedValue) bool = v.Value == e && v.Comparison == v1.Equals && v.TypeRestrictions.MinDataType == e.Type && v.TypeRestrictions.MaxDataType == e.Type
define groupQuery(q *qa.AssociatedActionQuery, kvs map[string]datatypes.EncapsulatedValue) bool = plainQuery(q) && len(q.Selection.IDs) == 0 && q.Selection.MinNumberOfKeyValues == nil && q.Selection.MaxNumberOfKeyValues == nil && (forall k string {k in q.Selection.KeyValues} :: k in q.Selection.KeyValues ==> k in kvs && eqVQ(q.Selection.KeyValues[k], kvs[k]))
define sameKeys(m map[string]qa.ValueQuery, ks []string) bool = (forall i int {ks[i]} :: 0 <= i && i < len(ks) ==> ks[i] in m) && (forall k string {k in m} :: k in m ==> (exists i int :: 0 <= i && i < len(ks) && ks[i] == k))
define keyLocked(kvs map[string]datatypes.EncapsulatedValue, k string) bool = lk_keys[k] && lk_vals[k] == kvs[k]
# channelops: a merged read that ended stays ended
ghost merge_ended bool
extern github.com/DanLavine/channelops:NewMergeRead(stopOnClose, ctxs) (co, c)
  set merge_ended = false
  ensures co != nil && c != nil
extern github.com/DanLavine/channelops:*MergeReadChannelOps.MergeOrToOne(co, cs) (err)
  set merge_ended = err != nil
  ensures old(merge_ended) ==> err != nil
func *counterClientLocal.checkCounters(cm, ctx, ruleKeys, kvs, increment, limit) (err)
  property P11
  requires cc_ok(cm) && ctx != nil && hasLogger(ctx) && untouched()
  requires [definition] forall v any {stored(cm.counters, v)} :: countersIn(cm.counters, v)
  requires [this-increment] increment == asked_inc && kvs == asked_kvs && increment > 0
  requires [a-limit] limit >= 0
  requires [every-key-locked] forall k string {k in kvs} :: k in kvs ==> keyLocked(kvs, k)
  requires [keys-of-the-counter] typedKVs(kvs) && len(ruleKeys) > 0 && (forall i int {ruleKeys[i]} :: 0 <= i && i < len(ruleKeys) ==> ruleKeys[i] in kvs)
  modifies ghost loaded, ghost ix_ops, ghost ix_op, ghost ix_query, ghost ix_stopped, ghost ix_calls
  set room = upd(room, ksid(dom(ix_query.Selection.KeyValues)), add(room[ksid(dom(ix_query.Selection.KeyValues))], limit)) when err == nil
  set denied = err != nil
  set denied_keys = dom(ix_query.Selection.KeyValues)
  set denied_limit = limit
  ensures [group-counted] ix_op == "QueryAction" && groupQuery(ix_query, kvs) && sameKeys(ix_query.Selection.KeyValues, ruleKeys)
  ensures [all-counted] err == nil ==> !ix_stopped
  ensures [admitted-inside-the-limit] err == nil ==> loaded - old(loaded) + increment <= limit
  ensures [refused-beyond-the-limit] err != nil ==> err.StatusCode == 409 && loaded - old(loaded) + increment > limit
  ensures srvErr(err)
  loop 1
    local query *qa.AssociatedActionQuery
    invariant plainQuery(query) && len(query.Selection.IDs) == 0 && query.Selection.MinNumberOfKeyValues == nil && query.Selection.MaxNumberOfKeyValues == nil && query.Selection.KeyValues != nil
    invariant forall k string {k in query.Selection.KeyValues} :: k in query.Selection.KeyValues ==> k in kvs && eqVQ(query.Selection.KeyValues[k], kvs[k])
    invariant forall i int {ruleKeys[i]} :: 0 <= i && i < $k ==> ruleKeys[i] in query.Selection.KeyValues
    invariant forall k string {k in query.Selection.KeyValues} :: k in query.Selection.KeyValues ==> (exists i int :: 0 <= i && i < $k && ruleKeys[i] == k)
    invariant $k > 0 ==> len(query.Selection.KeyValues) > 0
  loop 2
    local remaining int64
    invariant remaining >= 0 ==> remaining == limit - increment - (loaded - old(loaded))
    invariant remaining < 0 ==> loaded - old(loaded) + increment > limit
    invariant loaded >= old(loaded) && untouched()

define zeroLast(r *v1limiter.Rule) bool = len(r.State.Overrides) == 0 ? *r.Spec.Properties.Limit == 0 : *r.State.Overrides[len(r.State.Overrides)-1].Spec.Properties.Limit == 0
define limitRoom(ks map[string]datatypes.EncapsulatedValue, l int) bool = l == 0 - 1 || room[ksid(dom(ks))][l]
define overridesAllow(os v1limiter.Overrides, n int) bool = forall j int {os[j]} :: 0 <= j && j < n ==> limitRoom(os[j].Spec.DBDefinition.GroupByKeyValues, *os[j].Spec.Properties.Limit)
define ownAllow(n int) bool = forall i int {found[i]} :: 0 <= i && i < n && len(found[i].State.Overrides) == 0 ==> limitRoom(found[i].Spec.DBDefinition.GroupByKeyValues, *found[i].Spec.Properties.Limit)
define overAllow(n int) bool = forall i int, j int {found[i].State.Overrides[j]} :: 0 <= i && i < n && 0 <= j && j < len(found[i].State.Overrides) ==> limitRoom(found[i].State.Overrides[j].Spec.DBDefinition.GroupByKeyValues, *found[i].State.Overrides[j].Spec.Properties.Limit)
define isDenied(ks map[string]datatypes.EncapsulatedValue, l int) bool = denied_keys == dom(ks) && denied_limit == l
define ruleDenies(r *v1limiter.Rule) bool = len(r.State.Overrides) == 0 ? isDenied(r.Spec.DBDefinition.GroupByKeyValues, *r.Spec.Properties.Limit) : (exists j int :: 0 <= j && j < len(r.State.Overrides) && isDenied(r.State.Overrides[j].Spec.DBDefinition.GroupByKeyValues, *r.State.Overrides[j].Spec.Properties.Limit))
func *counterClientLocal.IncrementCounters(cm, ctx, lockerClient, counter) (err)
  property P11,P12
  option merge on
  option opaque wfEV
  requires cc_ok(cm) && ctx != nil && hasLogger(ctx) && lockerClient != nil && untouched() && ix_ops == 0
  requires [definition] forall v any {stored(cm.counters, v)} :: countersIn(cm.counters, v)
  requires [valid] counter != nil && counterSpecOK(counter.Spec) && *counter.Spec.Properties.Counters > 0
  requires [ghosts] asked_inc == *counter.Spec.Properties.Counters && asked_kvs == counter.Spec.DBDefinition.KeyValues && !denied && (forall s int, l int {room[s][l]} :: !room[s][l])
  modifies ghosts
  ensures {P11} [accepted-only-inside-every-limit.rules] err == nil ==> ownAllow(len(found))
  ensures {P11} [accepted-only-inside-every-limit.overrides] err == nil ==> overAllow(len(found))
  ensures {P11} [last-limit-of-zero-refuses] err == nil && len(found) > 0 ==> !zeroLast(found[len(found)-1])
  ensures {P11} [refused-only-at-a-limit] err != nil && err.StatusCode == 409 ==> len(found) > 0 && (zeroLast(found[len(found)-1]) || denied && (exists i int :: 0 <= i && i < len(found) && ruleDenies(found[i])))
  ensures {P11} [refused-changes-nothing] err != nil ==> untouched()
  ensures {P11} [locks-returned] lk_held == old(lk_held)
  ensures {P12} [accepted-changes-once] err == nil ==> upd_n + made_n == 1 && set_n == 0 && ix_op == "CreateOrFind" && ix_kvs == counter.Spec.DBDefinition.KeyValues
  ensures {P12} [by-the-amount] (upd_n == 1 ==> upd_by == old(*counter.Spec.Properties.Counters)) && (made_n == 1 ==> made_with == old(*counter.Spec.Properties.Counters))
  ensures srvErr(err)
  loop 1
    local unlimited bool
    invariant [unlimited-so-far.rules] unlimited ==> ownAllow($k)
    invariant [unlimited-so-far.overrides] unlimited ==> overAllow($k)
  loop 2
    local unlimited bool
    local rule *v1limiter.Rule
    invariant [unlimited-so-far] unlimited ==> overridesAllow(rule.State.Overrides, $k)
  loop 3
    local lockerLocks []lockerclient.Lock
    invariant [released-so-far] lk_held == old(lk_held) + len(lockerLocks) - $k
  loop 4
    local lockerLocks []lockerclient.Lock
    invariant [locks-held] lk_held == old(lk_held) + len(lockerLocks)
    invariant [real-locks] forall i int {lockerLocks[i]} :: 0 <= i && i < len(lockerLocks) ==> lockerLocks[i] != nil
    invariant !merge_ended
    invariant [a-lock-for-each-key] forall i int {$s[i]} :: 0 <= i && i < $k ==> keyLocked(asked_kvs, $s[i])
  loop 5
    invariant [allowed-so-far.rules] ownAllow($k)
    invariant [allowed-so-far.overrides] overAllow($k)
  loop 6
    local rule *v1limiter.Rule
    invariant [allowed-so-far] overridesAllow(rule.State.Overrides, $k)
    invariant [earlier-rules-allowed.rules] ownAllow($k5)
    invariant [earlier-rules-allowed.overrides] overAllow($k5)

package internal/limiter/counters/memory
import v1limiter pkg/models/api/limiter/v1
define counterOK(c *Counter) bool = c != nil && c.lock != nil && c.properties != nil && c.properties.Counters != nil
define idle(c *Counter) bool = WL(c.lock) == 0 && RL(c.lock) == 0
func New(p) (c)
  property P12
  requires p != nil && p.Counters != nil
  modifies
  ensures [value-kept] counterOK(c) && isfresh(c) && *c.properties.Counters == *p.Counters && idle(c)
  ensures [own-copy] c.properties != p && c.properties.Counters != p.Counters
func *Counter.Update(c, p) (n)
  property P12
  requires counterOK(c) && idle(c) && p != nil && p.Counters != nil
  modifies *c.properties.Counters
  ensures [exact] n == wrap(old(*c.properties.Counters) + old(*p.Counters), int64)
  ensures [kept] *c.properties.Counters == n
  ensures locks_unchanged()
func *Counter.Set(c, p) ()
  property P12
  requires counterOK(c) && idle(c) && p != nil && p.Counters != nil
  modifies *c.properties.Counters
  ensures [exact] *c.properties.Counters == old(*p.Counters)
  ensures locks_unchanged()
func *Counter.Load(c) (n)
  property P12
  requires counterOK(c) && idle(c)
  modifies
  ensures [exact] n == *c.properties.Counters
  ensures locks_unchanged()

package pkg/models/datatypes
func KeyValues.Keys(kv) (ks)
  property P08,P11
  modifies
  ensures [every-key] forall k string {k in kv} :: k in kv ==> (exists i int :: 0 <= i && i < len(ks) && ks[i] == k)
  ensures [only-keys] forall i int {ks[i]} :: 0 <= i && i < len(ks) ==> ks[i] in kv
  ensures len(ks) == len(kv)
  loop 1
    local keys []string
    invariant forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> keys[i] in kv
    invariant forall k string {$seen[k]} :: $seen[k] ==> (exists i int :: 0 <= i && i < len(keys) && keys[i] == k)
    invariant len(keys) == $n
func KeyValues.SortedKeys(kv) (ks)
  property P08,P11
  modifies
  ensures [every-key] forall k string {k in kv} :: k in kv ==> (exists i int :: 0 <= i && i < len(ks) && ks[i] == k)
  ensures [only-keys] forall i int {ks[i]} :: 0 <= i && i < len(ks) ==> ks[i] in kv
  ensures [in-order] forall i int, j int {ks[i], ks[j]} :: 0 <= i && i < j && j < len(ks) ==> ks[i] <= ks[j]
  ensures len(ks) == len(kv)
  loop 1
    local keys []string
    invariant forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> keys[i] in kv
    invariant forall k string {$seen[k]} :: $seen[k] ==> (exists i int :: 0 <= i && i < len(keys) && keys[i] == k)
    invariant len(keys) == $n
extern sort:Strings(x) ()
  modifies elems(x)
  ensures forall i int, j int {x[i], x[j]} :: 0 <= i && i < j && j < len(x) ==> x[i] <= x[j]
  ensures forall i int {x[i]} :: 0 <= i && i < len(x) ==> (exists j int :: 0 <= j && j < len(x) && old(x[j]) == x[i])
  ensures forall j int {old(x[j])} :: 0 <= j && j < len(x) ==> (exists i int :: 0 <= i && i < len(x) && old(x[j]) == x[i])
