# A queue channel kept in memory.
package internal/datastructures/btree
import datatypes pkg/models/datatypes
# the tree of one channel: items by their id
ghost bt_has set[string]
ghost bt_at smap[string]any
ghost bt_rest set[string]
ghost bt_made int
ghost bt_gone int
define sk(e datatypes.EncapsulatedValue) string = as(e.Data, string)
define skOK(e datatypes.EncapsulatedValue) bool = e.Type == datatypes.T_string && is(e.Data, string)
func BTree.Create(t, key, onCreate) (err)
  requires [by-id] skOK(key) && onCreate != nil
  calls onCreate() once if !(sk(key) in bt_has)
  set bt_at = upd(bt_at, sk(key), ret_onCreate) when called_onCreate && ret_onCreate != nil
  set bt_made = bt_made + 1 when called_onCreate && ret_onCreate != nil
  set bt_has = add(bt_has, sk(key)) when called_onCreate && ret_onCreate != nil
  ensures (err == nil) == called_onCreate
func BTree.Find(t, key, tr, callback) (err)
  requires [by-id] skOK(key) && tr.MinDataType == datatypes.T_string && tr.MaxDataType == datatypes.T_string && callback != nil
  calls callback(k, v) once if sk(key) in bt_has
    where v == bt_at[sk(key)] && k == key
  ensures err == nil
func BTree.Delete(t, key, canDelete) (err)
  requires [by-id] skOK(key)
  calls canDelete(k, v) once if sk(key) in bt_has
    where v == bt_at[sk(key)] && k == key
  set bt_gone = bt_gone + 1 when called_canDelete && ret_canDelete
  set bt_has = remove(bt_has, sk(key)) when called_canDelete && ret_canDelete
  ensures err == nil
func BTree.Empty(t) (e)
  ensures e == (bt_has == emptyset(string))
func BTree.DestroyAll(t, canDelete) (err)
  calls canDelete(k datatypes.EncapsulatedValue, v any) many all stop
    where skOK(k) && sk(k) in bt_has && v == bt_at[sk(k)]
  set bt_has = stopped_canDelete ? bt_rest : emptyset(string)
  ensures err == nil

package internal/idgenerator
func UniqueIDs.ID(g) (id)
  ensures id != "" && !(id in bt_has)

package internal/heartbeater
# the watch of an item as its channel sees it
ghost stop_ok bool
ghost hb_ok bool
ghost starts int
func Heartbeater.Stop(h) (taken)
  set stop_ok = taken
func Heartbeater.Start(h) (taken)
  set starts = starts + 1
func Heartbeater.Heartbeat(h) (taken)
  set hb_ok = taken

package pkg/clients/limiter_client
import v1limiter pkg/models/api/limiter/v1
import datatypes pkg/models/datatypes
import qm pkg/models/api/common/v1/query_match_action
import qa pkg/models/api/common/v1/query_associated_action
# the counters of one channel at the limiter
ghost lc_enq int
ghost lc_run int
ghost lc_sets int
ghost lc_refused bool
ghost lc_kvs map[string]datatypes.EncapsulatedValue
func LimiterClient.UpdateCounter(c, ctx, counter) (err)
  requires [valid] counter != nil && counterSpecOK(counter.Spec)
  requires [enqueued-or-running] ("_willow_enqueued" in counter.Spec.DBDefinition.KeyValues) != ("_willow_running" in counter.Spec.DBDefinition.KeyValues)
  set lc_enq = lc_enq + *counter.Spec.Properties.Counters when err == nil && "_willow_enqueued" in counter.Spec.DBDefinition.KeyValues
  set lc_run = lc_run + *counter.Spec.Properties.Counters when err == nil && "_willow_running" in counter.Spec.DBDefinition.KeyValues
  set lc_refused = err != nil
  set lc_kvs = counter.Spec.DBDefinition.KeyValues
  ensures *counter.Spec.Properties.Counters < 0 ==> err == nil
func LimiterClient.SetCounters(c, ctx, counter) (err)
  requires [valid] counter != nil && counterSpecOK(counter.Spec)
  set lc_sets = lc_sets + 1 when *counter.Spec.Properties.Counters == 0
  set lc_refused = err != nil
  set lc_kvs = counter.Spec.DBDefinition.KeyValues
func LimiterClient.MatchRules(c, ctx, q) (rs, err)
  requires q != nil
  ensures err == nil ==> (forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> rs[i] != nil && ruleOK(rs[i]) && rs[i].State != nil)
func LimiterClient.MatchOverrides(c, ctx, name, q) (os, err)
  requires q != nil
  ensures err == nil ==> (forall i int {os[i]} :: 0 <= i && i < len(os) ==> os[i] != nil && overrideSpecOK(os[i].Spec))
func LimiterClient.QueryCounters(c, ctx, q) (cs, err)
  requires q != nil
  ensures err == nil ==> countersListOK(cs)

package internal/willow/brokers/queue_channels/memory
import v1limiter pkg/models/api/limiter/v1
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import btree internal/datastructures/btree
import heartbeater internal/heartbeater
import limiterclient pkg/clients/limiter_client
axiom {queue} [same-prefix] forall a string, b string {"_willow_" + a, "_willow_" + b} :: "_willow_" + a == "_willow_" + b ==> a == b
axiom {queue} [prefix-of-names] forall a string {"_willow_" + a} :: ("_willow_" + a == "_willow_enqueued") == (a == "enqueued") && ("_willow_" + a == "_willow_queue_name") == (a == "queue_name") && ("_willow_" + a == "_willow_running") == (a == "running")

# ---------- one item ----------
define item_ok(it *item) bool = it != nil && it.lock != nil && it.heartbeatLock != nil && it.heartbeatTimeout > 0 && (it.retryPosition == "front" || it.retryPosition == "back") && it.retryCount <= it.maxRetryAttempts && it.maxRetryAttempts < 18446744073709551615
define asked(it *item, p *v1willow.ItemProperties) bool = it.data == p.Data && it.updateable == *p.Updateable && it.maxRetryAttempts == *p.RetryAttempts && it.retryPosition == *p.RetryPosition && it.heartbeatTimeout == *p.TimeoutDuration && it.retryCount == 0
func newItem(data, updateable, maxRetryAttempts, retryPosition, heartbeatTimeout) (it)
  property P14,P15
  ensures [as-given] isfresh(it) && it.data == data && it.updateable == updateable && it.maxRetryAttempts == maxRetryAttempts && it.retryPosition == retryPosition && it.heartbeatTimeout == heartbeatTimeout
  ensures [new] it.retryCount == 0 && it.heartbeatProcess == nil && it.lock != nil && it.heartbeatLock != nil
func *item.CreateHeartbeater(it, onShutdown, onTimeout) (h)
  property P15
  option nopanic on
  requires [not-watched] item_ok(it) && it.heartbeatProcess == nil && onTimeout != nil
  calls onTimeout() later
    yields [fails-the-item] fails == old(fails) + 1 && fail_timed && fail_id == taken
    yields [then-reports-to-the-parent] reported == old(reported) + 1
  modifies it.heartbeatProcess, locks
  ensures [watched] h != nil && it.heartbeatProcess == h
  ensures [as-configured] is(h, *heartbeater.heartbeater) && as(h, *heartbeater.heartbeater).timeout == it.heartbeatTimeout && as(h, *heartbeater.heartbeater).onTimeout == onTimeout
  ensures [locks-free] locks_unchanged()
func *item.UnsetHeartbeater(it) ()
  property P15
  requires item_ok(it)
  modifies it.heartbeatProcess, locks
  ensures [not-watched] it.heartbeatProcess == nil
  ensures [locks-free] locks_unchanged()
func *item.StartHeartbeater(it) (ok)
  property P15
  requires item_ok(it)
  modifies locks, ghost starts
  ensures [started-once] starts == old(starts) + (it.heartbeatProcess != nil ? 1 : 0) && (ok ==> it.heartbeatProcess != nil)
  ensures [locks-free] locks_unchanged()
func *item.StopHeartbeater(it) (ok)
  property P15
  requires item_ok(it)
  modifies it.heartbeatProcess, locks, ghost stop_ok
  ensures [the-answer-of-the-watch] ok == (old(it.heartbeatProcess) != nil && stop_ok)
  ensures [not-watched] it.heartbeatProcess == nil
  ensures [locks-free] locks_unchanged()
func *item.Heartbeat(it) (ok)
  property P15
  requires item_ok(it)
  modifies locks, ghost hb_ok
  ensures [the-answer-of-the-watch] ok == (it.heartbeatProcess != nil && hb_ok)
  ensures [locks-free] locks_unchanged()

# ---------- the channel ----------
ghost adds int
ghost token int
ghost taken string
ghost fails int
ghost fail_id string
ghost fail_timed bool
ghost reported int
ghost answers int
ghost answer bool
ghost task_id string
ghost task any
ghost task_refused bool
# the list of waiting items when its lock was obtained
# the items this operation has in hand: taken from the list, not put back by others
ghost hand set[string]
ghost l_n int
ghost l_ids smap[int]string
ghost l_adds int
ghost l_last string
ghost l_upd bool
define itemOf(id string) *item = as(bt_at[id], *item)
define isItem(id string) bool = is(bt_at[id], *item) && item_ok(as(bt_at[id], *item))
define chanKVs(kvs datatypes.KeyValues) bool = typedKVs(kvs) && !("queue_name" in kvs) && !("enqueued" in kvs) && !("running" in kvs) && !("_willow_queue_name" in kvs) && !("_willow_enqueued" in kvs) && !("_willow_running" in kvs)
define mq_ok(m *memoryQueueChannel) bool = m != nil && m.asyncManager != nil && m.deleteChan != nil && m.deleteOnce != nil && m.deleteCallback != nil && m.limiterClient != nil && m.notifier != nil && m.dequeueChan != nil && m.dequeueResponseChan != nil && m.idGenerator != nil && m.items != nil && m.itemsLock != nil && chanKVs(m.channelKeyValues)
define treeOK() bool = (forall s string {bt_at[s]} :: s in bt_has ==> isItem(s)) && (forall a string, b string {bt_at[a], bt_at[b]} :: a in bt_has && b in bt_has && a != b ==> bt_at[a] != bt_at[b])
define storedBefore() bool = forall s string {bt_at[s]} :: s in bt_has ==> !isfresh(itemOf(s))
define lists(l []string, p int) bool = off(l) <= p && p < off(l) + len(l)
define listOK(m *memoryQueueChannel) bool = (forall p int {elems(m.itemIDsEnqueued)[p]} :: lists(m.itemIDsEnqueued, p) ==> elems(m.itemIDsEnqueued)[p] != "" && elems(m.itemIDsEnqueued)[p] in bt_has && itemOf(elems(m.itemIDsEnqueued)[p]).heartbeatProcess == nil) && (forall p int, q int {elems(m.itemIDsEnqueued)[p], elems(m.itemIDsEnqueued)[q]} :: lists(m.itemIDsEnqueued, p) && lists(m.itemIDsEnqueued, q) && p != q ==> elems(m.itemIDsEnqueued)[p] != elems(m.itemIDsEnqueued)[q])
define sameList(m *memoryQueueChannel) bool = len(m.itemIDsEnqueued) == l_n && (forall i int {m.itemIDsEnqueued[i]} :: 0 <= i && i < l_n ==> m.itemIDsEnqueued[i] == l_ids[i])
define appended(m *memoryQueueChannel, id string) bool = len(m.itemIDsEnqueued) == l_n + 1 && (forall i int {m.itemIDsEnqueued[i]} :: 0 <= i && i < l_n ==> m.itemIDsEnqueued[i] == l_ids[i]) && m.itemIDsEnqueued[l_n] == id
define prepended(m *memoryQueueChannel, id string) bool = len(m.itemIDsEnqueued) == l_n + 1 && (forall i int {m.itemIDsEnqueued[i]} :: 0 < i && i <= l_n ==> m.itemIDsEnqueued[i] == l_ids[i-1]) && m.itemIDsEnqueued[0] == id
define lastReplaced(m *memoryQueueChannel, id string) bool = len(m.itemIDsEnqueued) == l_n && l_n > 0 && (forall i int {m.itemIDsEnqueued[i]} :: 0 <= i && i < l_n - 1 ==> m.itemIDsEnqueued[i] == l_ids[i]) && m.itemIDsEnqueued[l_n-1] == id
import time time
import reporting internal/reporting
extern go.uber.org/zap:New(core, opts) (l)
  ensures l != nil
extern github.com/DanLavine/gonotify:New() (n)
  ensures n != nil
extern github.com/DanLavine/goasync:NewTaskManager(c) (t)
  ensures t != nil
extern lock *memoryQueueChannel.itemsLock(m) ()
  modifies m.itemIDsEnqueued, all elems string, ghost l_ids
  set l_n = len(m.itemIDsEnqueued)
  set l_adds = adds
  set l_last = len(m.itemIDsEnqueued) > 0 ? m.itemIDsEnqueued[len(m.itemIDsEnqueued)-1] : ""
  set l_upd = len(m.itemIDsEnqueued) > 0 && itemOf(m.itemIDsEnqueued[len(m.itemIDsEnqueued)-1]).updateable
  ensures forall i int {l_ids[i]} :: 0 <= i && i < l_n ==> l_ids[i] == m.itemIDsEnqueued[i]
  ensures listOK(m) && token <= l_n
  ensures forall p int {elems(m.itemIDsEnqueued)[p]} :: lists(m.itemIDsEnqueued, p) ==> !(elems(m.itemIDsEnqueued)[p] in hand)
extern unlock *memoryQueueChannel.itemsLock(m) ()
  requires [waiting-items-are-stored-once] listOK(m)
  requires [one-notification-per-item] len(m.itemIDsEnqueued) - l_n == adds - l_adds - token
  set token = 0
  set taken = token == 1 ? l_ids[0] : taken
  set hand = token == 1 ? add(hand, l_ids[0]) : hand
extern github.com/DanLavine/gonotify:*Notify.Add(n) (err)
  set adds = adds + 1
extern *memoryQueueChannel.deleteCallback(m) ()
  requires [after-the-failure] fails == reported + 1
  set reported = reported + 1
extern send *memoryQueueChannel.dequeueResponseChan(m, v) ()
  requires [answered-once] answers == 0
  set answers = answers + 1
  set answer = v
extern github.com/DanLavine/goasync:AsyncTaskManager.AddExecuteTask(a, name, t) (err)
  set task_id = name
  set task_refused = err != nil
  set task = t

define ownKVs(kvs map[string]datatypes.EncapsulatedValue, name string) bool = "_willow_queue_name" in kvs && kvs["_willow_queue_name"].Type == datatypes.T_string && kvs["_willow_queue_name"].Data == box(name, string)
define enqKVs(m *memoryQueueChannel, kvs map[string]datatypes.EncapsulatedValue) bool = ownKVs(kvs, m.queueName) && "_willow_enqueued" in kvs && len(kvs) == len(m.channelKeyValues) + 2 && (forall k string {k in m.channelKeyValues} :: k in m.channelKeyValues ==> "_willow_" + k in kvs && kvs["_willow_" + k] == m.channelKeyValues[k])
define runKVs(m *memoryQueueChannel, kvs map[string]datatypes.EncapsulatedValue) bool = ownKVs(kvs, m.queueName) && "_willow_running" in kvs && len(kvs) == len(m.channelKeyValues) + 2 && (forall k string {k in m.channelKeyValues} :: k in m.channelKeyValues ==> k in kvs && kvs[k] == m.channelKeyValues[k])
func *memoryQueueChannel.limiterUpdateEnqueuedValue(m, ctx, n) (err)
  property P14
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && (n == 1 || n == 0 - 1)
  modifies ghost lc_enq, ghost lc_refused, ghost lc_kvs
  ensures [counted] lc_enq == old(lc_enq) + (err == nil ? n : 0)
  ensures [refused] (err != nil) == lc_refused && (n < 0 ==> err == nil) && (err != nil ==> err.StatusCode == 409 && err.Message != "")
  ensures [the-counter-of-this-channel] enqKVs(m, lc_kvs)
  loop 1
    local enqueueKeyValues datatypes.KeyValues
    invariant [own] enqueueKeyValues != nil && isfresh(enqueueKeyValues) && ownKVs(enqueueKeyValues, m.queueName) && "_willow_enqueued" in enqueueKeyValues && typedKVs(enqueueKeyValues) && !("_willow_running" in enqueueKeyValues)
    invariant [copied] forall k string {$seen[k]} :: $seen[k] ==> "_willow_" + k in enqueueKeyValues && enqueueKeyValues["_willow_" + k] == m.channelKeyValues[k]
    invariant [only] forall k string {"_willow_" + k in enqueueKeyValues} :: "_willow_" + k in enqueueKeyValues && k != "queue_name" && k != "enqueued" ==> $seen[k]
    invariant [as-many] len(enqueueKeyValues) == $n + 2
func *memoryQueueChannel.limterUpdateRunningValue(m, ctx, n) (err)
  property P14
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && (n == 1 || n == 0 - 1)
  modifies ghost lc_run, ghost lc_refused, ghost lc_kvs
  ensures [counted] lc_run == old(lc_run) + (err == nil ? n : 0)
  ensures [refused] (err != nil) == lc_refused && (n < 0 ==> err == nil)
  ensures [the-counter-of-this-channel] runKVs(m, lc_kvs)
  loop 1
    local counterKeyValues datatypes.KeyValues
    invariant [own] counterKeyValues != nil && isfresh(counterKeyValues) && ownKVs(counterKeyValues, m.queueName) && "_willow_running" in counterKeyValues && typedKVs(counterKeyValues) && !("_willow_enqueued" in counterKeyValues)
    invariant [copied] forall k string {$seen[k]} :: $seen[k] ==> k in counterKeyValues && counterKeyValues[k] == m.channelKeyValues[k]
    invariant [only] forall k string {k in counterKeyValues} :: k in counterKeyValues && k != "_willow_queue_name" && k != "_willow_running" ==> $seen[k]
    invariant [as-many] len(counterKeyValues) == $n + 2
func *memoryQueueChannel.setLimiterEnqueuedValue(m, ctx) (err)
  property P14
  requires mq_ok(m) && ctx != nil && hasLogger(ctx)
  modifies ghost lc_sets, ghost lc_refused, ghost lc_kvs
  ensures [removed] lc_sets == old(lc_sets) + 1 && (err != nil) == lc_refused
  ensures [the-counter-of-this-channel] enqKVs(m, lc_kvs)
  loop 1
    local enqueueKeyValues datatypes.KeyValues
    invariant [own] enqueueKeyValues != nil && isfresh(enqueueKeyValues) && ownKVs(enqueueKeyValues, m.queueName) && "_willow_enqueued" in enqueueKeyValues && typedKVs(enqueueKeyValues)
    invariant [copied] forall k string {$seen[k]} :: $seen[k] ==> "_willow_" + k in enqueueKeyValues && enqueueKeyValues["_willow_" + k] == m.channelKeyValues[k]
    invariant [only] forall k string {"_willow_" + k in enqueueKeyValues} :: "_willow_" + k in enqueueKeyValues && k != "queue_name" && k != "enqueued" ==> $seen[k]
    invariant [as-many] len(enqueueKeyValues) == $n + 2
func *memoryQueueChannel.setLimterRunningValue(m, ctx) (err)
  property P14
  requires mq_ok(m) && ctx != nil && hasLogger(ctx)
  modifies ghost lc_sets, ghost lc_refused, ghost lc_kvs
  ensures [removed] lc_sets == old(lc_sets) + 1 && (err != nil) == lc_refused
  ensures [the-counter-of-this-channel] runKVs(m, lc_kvs)
  loop 1
    local counterKeyValues datatypes.KeyValues
    invariant [own] counterKeyValues != nil && isfresh(counterKeyValues) && ownKVs(counterKeyValues, m.queueName) && "_willow_running" in counterKeyValues && typedKVs(counterKeyValues)
    invariant [copied] forall k string {$seen[k]} :: $seen[k] ==> k in counterKeyValues && counterKeyValues[k] == m.channelKeyValues[k]
    invariant [only] forall k string {k in counterKeyValues} :: k in counterKeyValues && k != "_willow_queue_name" && k != "_willow_running" ==> $seen[k]
    invariant [as-many] len(counterKeyValues) == $n + 2
define stored0() bool = bt_made - old(bt_made) - (bt_gone - old(bt_gone)) == lc_enq - old(lc_enq)
define untouchedItem(s string) bool = bt_at[s] == old(bt_at)[s] && itemOf(s).retryCount == old(itemOf(s).retryCount)
func *memoryQueueChannel.Enqueue(m, ctx, e) (err)
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && storedBefore() && token == 0
  requires [valid] e != nil && itemSpecOK(e.Spec) && *e.Spec.Properties.RetryAttempts < 18446744073709551615
  modifies m.itemIDsEnqueued, all elems string, all item.*, locks, ghosts
  ensures [replaced-in-place] l_upd ==> err == nil && sameList(m) && bt_has == old(bt_has) && bt_at == old(bt_at) && lc_enq == old(lc_enq) && adds == old(adds) && asked(itemOf(l_last), e.Spec.Properties)
  ensures [refused-at-the-limit] !l_upd ==> (err != nil) == lc_refused
  ensures [refused-changes-nothing] err != nil ==> err.StatusCode == 409 && sameList(m) && bt_has == old(bt_has) && bt_at == old(bt_at) && lc_enq == old(lc_enq) && adds == old(adds)
  ensures [put-last] !l_upd && err == nil ==> len(m.itemIDsEnqueued) == l_n + 1 && appended(m, m.itemIDsEnqueued[l_n]) && !(m.itemIDsEnqueued[l_n] in old(bt_has)) && asked(itemOf(m.itemIDsEnqueued[l_n]), e.Spec.Properties) && bt_has == add(old(bt_has), m.itemIDsEnqueued[l_n]) && adds == old(adds) + 1
  ensures [one-count-per-stored-item] bt_made - old(bt_made) - (bt_gone - old(bt_gone)) == lc_enq - old(lc_enq) && bt_made - old(bt_made) == (!l_upd && err == nil ? 1 : 0) && lc_run == old(lc_run)
  ensures [others-unchanged] forall s string {bt_at[s]} :: s in old(bt_has) && !(l_upd && s == l_last) ==> bt_at[s] == old(bt_at[s]) && itemOf(s).data == old(itemOf(s).data) && itemOf(s).updateable == old(itemOf(s).updateable) && itemOf(s).retryCount == old(itemOf(s).retryCount)
  ensures [stored] treeOK()
  ensures [locks-free] locks_unchanged()
func *memoryQueueChannel.failItem(m, ctx, itemID, timedOut) (ok)
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && storedBefore() && token == 0 && itemID != "" && (timedOut ==> itemID in hand)
  modifies m.itemIDsEnqueued, all elems string, all item.retryCount, all item.heartbeatProcess, locks, ghost lc_enq, ghost lc_run, ghost lc_refused, ghost lc_kvs, ghost bt_has, ghost bt_gone, ghost adds, ghost stop_ok, ghost l_n, ghost l_ids, ghost l_adds, ghost l_last, ghost l_upd
  set fails = fails + 1
  set fail_id = itemID
  set fail_timed = timedOut
  let it = old(itemOf(itemID))
  ensures {P15} [accepted-exactly-when-processing] ok == (itemID in old(bt_has) && (timedOut || old(it.heartbeatProcess) != nil && stop_ok))
  ensures {P15} [refused-changes-nothing] !ok ==> sameList(m) && bt_has == old(bt_has) && lc_enq == old(lc_enq) && lc_run == old(lc_run) && adds == old(adds) && it.retryCount == old(it.retryCount)
  ensures {P14} [no-longer-running] lc_run == old(lc_run) - (ok ? 1 : 0)
  ensures {P15} [dropped-without-retries] ok && old(it.retryCount) + 1 > old(it.maxRetryAttempts) ==> bt_has == remove(old(bt_has), itemID) && sameList(m)
  ensures {P15} [counts-the-failure] ok && itemID in bt_has ==> it.retryCount == old(it.retryCount) + 1 && it.retryCount <= it.maxRetryAttempts
  ensures {P15} [updated-by-the-next] ok && old(it.retryCount) + 1 <= old(it.maxRetryAttempts) && it.retryPosition == "front" && l_n > 0 && it.updateable ==> bt_has == remove(old(bt_has), itemID) && sameList(m)
  ensures {P15} [to-the-front] ok && old(it.retryCount) + 1 <= old(it.maxRetryAttempts) && it.retryPosition == "front" && !(l_n > 0 && it.updateable) ==> bt_has == old(bt_has) && prepended(m, itemID)
  ensures {P15} [to-the-back] ok && old(it.retryCount) + 1 <= old(it.maxRetryAttempts) && it.retryPosition == "back" && !l_upd ==> bt_has == old(bt_has) && appended(m, itemID)
  ensures {P15} [updates-the-last] ok && old(it.retryCount) + 1 <= old(it.maxRetryAttempts) && it.retryPosition == "back" && l_upd ==> bt_has == remove(old(bt_has), l_last) && lastReplaced(m, itemID)
  ensures {P15} [not-watched] ok ==> it.heartbeatProcess == nil
  ensures {P14} [one-count-per-stored-item] bt_made - old(bt_made) - (bt_gone - old(bt_gone)) == lc_enq - old(lc_enq) && bt_made == old(bt_made)
  ensures {P15} [others-unchanged] bt_at == old(bt_at) && (forall s string {bt_at[s]} :: s in old(bt_has) && s != itemID ==> itemOf(s).retryCount == old(itemOf(s).retryCount) && itemOf(s).heartbeatProcess == old(itemOf(s).heartbeatProcess))
  ensures [stored] treeOK()
  ensures [locks-free] locks_unchanged()
func *memoryQueueChannel.ACK(m, ctx, ack) (empty, err)
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && storedBefore() && token == 0 && l_n == 0 && ack != nil && ack.ItemID != ""
  modifies m.itemIDsEnqueued, all elems string, all item.retryCount, all item.heartbeatProcess, locks, ghost fails, ghost fail_id, ghost fail_timed, ghost lc_enq, ghost lc_run, ghost lc_refused, ghost lc_kvs, ghost bt_has, ghost bt_gone, ghost adds, ghost stop_ok, ghost l_n, ghost l_ids, ghost l_adds, ghost l_last, ghost l_upd
  let it = old(itemOf(ack.ItemID))
  ensures {P15} [accepted-exactly-when-processing] (err == nil) == (ack.ItemID in old(bt_has) && old(it.heartbeatProcess) != nil && stop_ok)
  ensures {P15} [refused-changes-nothing] err != nil ==> err.StatusCode == 404 && err.Message != "" && bt_has == old(bt_has) && lc_enq == old(lc_enq) && lc_run == old(lc_run) && adds == old(adds) && it.retryCount == old(it.retryCount)
  ensures {P15} [passed-removes-the-item] err == nil && ack.Passed ==> bt_has == remove(old(bt_has), ack.ItemID) && adds == old(adds) && m.itemIDsEnqueued == old(m.itemIDsEnqueued)
  ensures {P15} [failed-is-failed-once] ack.Passed ? fails == old(fails) : fails == old(fails) + 1 && fail_id == ack.ItemID && !fail_timed
  ensures {P14} [one-count-per-stored-item] bt_made - old(bt_made) - (bt_gone - old(bt_gone)) == lc_enq - old(lc_enq) && lc_run == old(lc_run) - (err == nil ? 1 : 0) && bt_made == old(bt_made)
  ensures {P14} [others-unchanged] bt_at == old(bt_at) && (forall s string {bt_at[s]} :: s in old(bt_has) && s != ack.ItemID ==> itemOf(s).retryCount == old(itemOf(s).retryCount) && itemOf(s).heartbeatProcess == old(itemOf(s).heartbeatProcess))
  ensures [empty-exactly-without-items] empty == (bt_has == emptyset(string))
  ensures [stored] treeOK()
  ensures [locks-free] locks_unchanged()
func *memoryQueueChannel.Heartbeat(m, ctx, hb) (err)
  property P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && hb != nil
  modifies locks, ghost hb_ok
  ensures [accepted-exactly-when-processing] (err == nil) == (hb.ItemID in bt_has && itemOf(hb.ItemID).heartbeatProcess != nil && hb_ok)
  ensures [refused] err != nil ==> err.StatusCode == 404 && err.Message != ""
  ensures [locks-free] locks_unchanged()
func *memoryQueueChannel.dequeue(m, ctx) (it, ok, bad)
  property P14,P15
  option nopanic on
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && storedBefore() && token == 1 && answers == 0 && fails == reported && l_n == 0
  modifies m.itemIDsEnqueued, all elems string, all item.heartbeatProcess, locks, ghost token, ghost taken, ghost hand, ghost answers, ghost answer, ghost task, ghost task_id, ghost task_refused, ghost lc_enq, ghost lc_run, ghost lc_refused, ghost lc_kvs, ghost bt_has, ghost bt_gone, ghost adds, ghost stop_ok, ghost l_n, ghost l_ids, ghost l_adds, ghost l_last, ghost l_upd
  ensures {P14} [refused-exactly-at-the-limit] (it == nil) == lc_refused
  ensures {P14} [refused-gives-the-turn-back] it == nil ==> ok == nil && bad == nil && answers == 1 && answer && adds == old(adds) + 1 && lc_run == old(lc_run) && m.itemIDsEnqueued == old(m.itemIDsEnqueued) && token == 1
  ensures {P14} [the-oldest] it != nil ==> l_n > 0 && it.State != nil && it.State.ID == l_ids[0] && taken == l_ids[0]
  ensures {P14} [taken-from-the-list] it != nil ==> len(m.itemIDsEnqueued) == l_n - 1 && (forall i int {m.itemIDsEnqueued[i]} :: 0 <= i && i < l_n - 1 ==> m.itemIDsEnqueued[i] == l_ids[i+1]) && token == 0 && adds == old(adds)
  ensures {P14} [running] it != nil ==> lc_run == old(lc_run) + 1 && answers == 0 && ok != nil && bad != nil
  ensures {P14} [as-enqueued] it != nil ==> itemSpecOK(it.Spec) && it.Spec.DBDefinition.KeyValues == m.channelKeyValues && it.Spec.Properties.Data == itemOf(taken).data && *it.Spec.Properties.Updateable == itemOf(taken).updateable && *it.Spec.Properties.RetryAttempts == itemOf(taken).maxRetryAttempts && *it.Spec.Properties.RetryPosition == itemOf(taken).retryPosition && *it.Spec.Properties.TimeoutDuration == itemOf(taken).heartbeatTimeout
  ensures {P15} [watched] it != nil ==> task_id == taken && task != nil && (itemOf(taken).heartbeatProcess == task || itemOf(taken).heartbeatProcess == nil && task_refused)
  ensures {P14} [still-stored] bt_has == old(bt_has) && bt_at == old(bt_at) && lc_enq == old(lc_enq) && bt_made == old(bt_made) && bt_gone == old(bt_gone)
  ensures [stored] treeOK()
  ensures [locks-free] locks_unchanged()
func *memoryQueueChannel.successfulDequeue(m, ctx, itemID) (f)
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && answers == 0
  ensures f != nil
  returned f()
    yields {P14} [next-may-follow] answers == 1 && !answer
    yields {P15} [the-watch-starts] starts == old(starts) + (itemID in bt_has && itemOf(itemID).heartbeatProcess != nil ? 1 : 0)
    yields {P14} [nothing-else] m.itemIDsEnqueued == old(m.itemIDsEnqueued) && bt_has == old(bt_has) && lc_enq == old(lc_enq) && lc_run == old(lc_run) && adds == old(adds)
func *memoryQueueChannel.failedDequeue(m, ctx, itemID) (f)
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && storedBefore() && answers == 0 && itemID != ""
  ensures f != nil
  returned f()
    where token == 0
    yields {P14} [next-may-follow] answers == 1 && !answer
    yields {P14} [no-longer-running] lc_run == old(lc_run) - 1
    yields {P14} [to-the-front-again] itemID in old(bt_has) && old(itemOf(itemID).heartbeatProcess) != nil && stop_ok && !(old(itemOf(itemID).updateable) && l_n > 0) ==> prepended(m, itemID) && bt_has == old(bt_has)
    yields {P14} [updated-by-the-next] itemID in old(bt_has) && old(itemOf(itemID).heartbeatProcess) != nil && stop_ok && old(itemOf(itemID).updateable) && l_n > 0 ==> sameList(m) && bt_has == remove(old(bt_has), itemID)
    yields {P14} [only-when-it-was-taken] !(itemID in old(bt_has) && old(itemOf(itemID).heartbeatProcess) != nil && stop_ok) ==> sameList(m) && bt_has == old(bt_has)
    yields {P14} [one-count-per-stored-item] bt_made - old(bt_made) - (bt_gone - old(bt_gone)) == lc_enq - old(lc_enq) && bt_made == old(bt_made)
    yields {P15} [no-retry-used] itemOf(itemID).retryCount == old(itemOf(itemID).retryCount)
    yields [stored] treeOK()
    yields [locks-free] locks_unchanged()
func *memoryQueueChannel.Dequeue(m) (c)
  property P14
  requires m != nil
  ensures [the-channel-of-the-loop] c == m.dequeueChan
func *memoryQueueChannel.Delete(m) (gone)
  property P14
  requires mq_ok(m) && closed(m.deleteChan) == once(m.deleteOnce)
  modifies once(m.deleteOnce), chan(m.deleteChan)
  ensures [only-when-empty] gone == (bt_has == emptyset(string))
  ensures [stopped] closed(m.deleteChan) == (gone || old(closed(m.deleteChan))) && closed(m.deleteChan) == once(m.deleteOnce)
func New(limiterClient, deleteCallback, queueName, channelKeyValues) (m)
  property P14
  requires limiterClient != nil && deleteCallback != nil && chanKVs(channelKeyValues)
  ensures [ready] mq_ok(m) && isfresh(m) && len(m.itemIDsEnqueued) == 0 && m.queueName == queueName && m.channelKeyValues == channelKeyValues && m.limiterClient == limiterClient && m.deleteCallback == deleteCallback
  ensures [open] !closed(m.deleteChan) && !once(m.deleteOnce) && cap(m.dequeueChan) == 0 && cap(m.dequeueResponseChan) == 0
func *memoryQueueChannel.ForceDelete(m, ctx) ()
  property P14,P15
  requires mq_ok(m) && ctx != nil && hasLogger(ctx) && treeOK() && closed(m.deleteChan) == once(m.deleteOnce)
  modifies once(m.deleteOnce), chan(m.deleteChan), all item.heartbeatProcess, locks, ghost stop_ok, ghost lc_sets, ghost lc_refused, ghost lc_kvs, ghost bt_has
  ensures [stopped] closed(m.deleteChan) && once(m.deleteOnce)
  ensures [counters-removed] lc_sets == old(lc_sets) + 2
  ensures [items-removed] bt_has == emptyset(string)
  ensures [watches-stopped] forall e datatypes.EncapsulatedValue {sk(e) in old(bt_has)} :: skOK(e) && sk(e) in old(bt_has) ==> itemOf(sk(e)).heartbeatProcess == nil
  ensures [locks-free] locks_unchanged()
  loop 1
    invariant [each-watch-stopped] forall e datatypes.EncapsulatedValue {$seen[e]} :: $seen[e] ==> itemOf(sk(e)).heartbeatProcess == nil
    invariant treeOK() && locks_unchanged() && lc_sets == old(lc_sets) + 2
# the loop that offers waiting items, one turn at a time
ghost inflight bool
ghost stops int
extern context:WithCancel(p) (c, cancel) for internal/willow/brokers/queue_channels/memory
  ensures c != nil && cancel != nil
extern github.com/DanLavine/gonotify:recv *Notify.Ready(n) (v, ok)
  requires [one-turn-at-a-time] token == 0 && !inflight
  set token = 1
extern github.com/DanLavine/gonotify:*Notify.ForceStop(n) ()
  set stops = stops + 1
extern send *memoryQueueChannel.dequeueChan(m, f) ()
  option carries *memoryQueueChannel.dequeue
  requires [only-with-an-item] token == 1 && !inflight
  set token = 0
  set inflight = true
extern recv *memoryQueueChannel.dequeueResponseChan(m) (v, ok)
  requires [a-turn-is-out] inflight
  set inflight = false
extern close *memoryQueueChannel.dequeueChan(m)
  requires [after-the-last-turn] !inflight && !closed(m.dequeueChan)
func *memoryQueueChannel.Execute(m, ctx) (err)
  property P14
  option merge on
  option unknownfuncs pure
  requires mq_ok(m) && ctx != nil && token == 0 && !inflight && !closed(m.dequeueChan)
  modifies chan(m.dequeueChan), ghosts
  ensures [over] closed(m.dequeueChan) && stops == old(stops) + 1 && !inflight
  loop 1
    invariant [answered-before] token == 0 && !inflight && !closed(m.dequeueChan) && stops == old(stops)
