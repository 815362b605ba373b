# The queues of the service by name, and their limits at the limiter.
package internal/datastructures/btree
import datatypes pkg/models/datatypes
import queues internal/willow/brokers/queues
# the tree of queues: queues by their name, and the names being destroyed by another request
ghost qt_has set[string]
ghost qt_at smap[string]any
ghost qt_dying set[string]
func BTree.Create(t, key, onCreate) (err) for internal/willow/brokers/queues
  requires [by-name] skOK(key) && onCreate != nil
  calls onCreate() once if !(sk(key) in qt_has) && !(sk(key) in qt_dying)
    yields [a-queue-or-nothing] ret == nil || is(ret, queues.Queue)
  set qt_at = upd(qt_at, sk(key), ret_onCreate) when called_onCreate && ret_onCreate != nil
  set qt_has = add(qt_has, sk(key)) when called_onCreate && ret_onCreate != nil
  ensures err == (sk(key) in qt_dying ? ErrorKeyDestroying : called_onCreate ? nil : ErrorKeyAlreadyExists)
func BTree.Find(t, key, tr, callback) (err) for internal/willow/brokers/queues
  requires [by-name-or-all] (skOK(key) && tr.MinDataType == datatypes.T_string || key.Type == datatypes.T_any && key.Data == nil && tr.MinDataType == datatypes.MinDataType) && datatypes.T_string <= tr.MaxDataType && callback != nil
  calls callback(k datatypes.EncapsulatedValue, v any) many all stop if !(key.Type == datatypes.T_string && sk(key) in qt_dying)
    where skOK(k) && sk(k) in qt_has && v == qt_at[sk(k)] && is(v, queues.Queue) && (key.Type == datatypes.T_string ==> k == key)
  ensures err == (key.Type == datatypes.T_string && sk(key) in qt_dying ? ErrorKeyDestroying : nil)
  ensures key.Type == datatypes.T_string && !(sk(key) in qt_dying) ==> (key in called_callback) == (sk(key) in qt_has)
  ensures key.Type == datatypes.T_any && !stopped_callback ==> (forall k datatypes.EncapsulatedValue {sk(k)} :: skOK(k) && sk(k) in qt_has && !(sk(k) in qt_dying) ==> k in called_callback)
func BTree.Destroy(t, key, canDelete) (err) for internal/willow/brokers/queues
  requires [by-name] skOK(key)
  calls canDelete(k, v) once if sk(key) in qt_has && !(sk(key) in qt_dying)
    where v == qt_at[sk(key)] && k == key && is(v, queues.Queue)
  set qt_has = remove(qt_has, sk(key)) when called_canDelete && ret_canDelete
  ensures err == (sk(key) in qt_dying ? ErrorKeyDestroying : nil)

package pkg/clients/limiter_client
import v1limiter pkg/models/api/limiter/v1
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
import v1 pkg/models/api/common/v1
# the limit of the enqueued items of each queue as the limiter enforces it
ghost lo_has set[string]
ghost lo_limit smap[string]int
ghost lo_rule string
ghost lo_err error
ghost lo_found int
declare ovName(id string) string
declare ovQueried(q any, name string) bool
define qnameOf(m map[string]datatypes.EncapsulatedValue) string = as(m["_willow_queue_name"].Data, string)
define limitKeys(m map[string]datatypes.EncapsulatedValue) bool = (forall k string {k in m} :: (k in m) == (k == "_willow_queue_name" || k == "_willow_enqueued")) && skOK(m["_willow_queue_name"]) && skOK(m["_willow_enqueued"]) && sk(m["_willow_enqueued"]) == "true"
define equalTo(m map[string]qa.ValueQuery, k string) bool = k in m && m[k].Comparison == v1.Equals && skOK(m[k].Value) && m[k].TypeRestrictions.MinDataType == datatypes.T_string && m[k].TypeRestrictions.MaxDataType == datatypes.T_string
define limitQuery(q *qa.AssociatedActionQuery) bool = q != nil && len(q.Or) == 0 && len(q.And) == 0 && q.Selection != nil && len(q.Selection.IDs) == 0 && equalTo(q.Selection.KeyValues, "_willow_queue_name") && equalTo(q.Selection.KeyValues, "_willow_enqueued") && sk(q.Selection.KeyValues["_willow_enqueued"].Value) == "true" && (forall k string {k in q.Selection.KeyValues} :: k in q.Selection.KeyValues ==> k == "_willow_queue_name" || k == "_willow_enqueued") && (q.Selection.MinNumberOfKeyValues != nil ==> *q.Selection.MinNumberOfKeyValues <= 2) && (q.Selection.MaxNumberOfKeyValues != nil ==> *q.Selection.MaxNumberOfKeyValues >= 2)
func LimiterClient.CreateOverride(c, ctx, rule, o) (res, err)
  requires [willow-rule] rule == lo_rule
  requires [complete] o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && o.Spec.Properties != nil && o.Spec.Properties.Limit != nil && o.State == nil
  requires [for-the-enqueued-items-of-one-queue] limitKeys(o.Spec.DBDefinition.GroupByKeyValues)
  set lo_limit = upd(lo_limit, qnameOf(o.Spec.DBDefinition.GroupByKeyValues), *o.Spec.Properties.Limit) when err == nil
  set lo_has = add(lo_has, qnameOf(o.Spec.DBDefinition.GroupByKeyValues)) when err == nil
  set lo_err = err
func LimiterClient.QueryOverrides(c, ctx, rule, q) (os, err)
  requires [willow-rule] rule == lo_rule
  requires [for-the-enqueued-items-of-one-queue] limitQuery(q)
  set lo_err = err
  set lo_found = len(os)
  ensures err == nil ==> (forall i int {os[i]} :: 0 <= i && i < len(os) ==> os[i] != nil && os[i].State != nil && ovName(os[i].State.ID) == sk(q.Selection.KeyValues["_willow_queue_name"].Value))
func LimiterClient.UpdateOverride(c, ctx, rule, id, p) (err)
  requires [willow-rule] rule == lo_rule
  requires [complete] p != nil && p.Limit != nil
  set lo_limit = upd(lo_limit, ovName(id), *p.Limit) when err == nil
  set lo_err = err
func LimiterClient.DeleteOverride(c, ctx, rule, id) (err)
  requires [willow-rule] rule == lo_rule
  set lo_has = remove(lo_has, ovName(id)) when err == nil
  set lo_err = err

package internal/willow/brokers/queues/memory
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
define others(name string) bool = forall n string {n in lo_has} {lo_limit[n]} :: n != name ==> (n in lo_has) == (n in old(lo_has)) && lo_limit[n] == old(lo_limit)[n]
func New(ctx, queue, limiterRuleID, limiterClient) (mq, err)
  property P16
  option nopanic on
  requires ctx != nil && hasLogger(ctx) && queue != nil && queueSpecOK(queue.Spec) && limiterClient != nil && limiterRuleID == lo_rule
  modifies ghost lo_has, ghost lo_limit, ghost lo_err
  ensures [limit-as-requested] err == nil ==> mq != nil && isfresh(mq) && mq.configuredLimit != nil && load(mq.configuredLimit) == *queue.Spec.Properties.MaxItems && mq.queueName == *queue.Spec.DBDefinition.Name && mq.limiterClient == limiterClient
  ensures [limit-enforced] err == nil ==> mq.queueName in lo_has && lo_limit[mq.queueName] == *queue.Spec.Properties.MaxItems
  ensures [refused-when-not-enforced] (err == nil) == (lo_err == nil) && srvErr(err)
  ensures [only-this-queue] others(*queue.Spec.DBDefinition.Name)
define mqueueOK(mq *memoryQueue) bool = mq != nil && mq.configuredLimit != nil && mq.limiterClient != nil
func *memoryQueue.ConfiguredLimit(mq) (n)
  property P16
  requires mqueueOK(mq)
  modifies
  ensures [the-limit] n == load(mq.configuredLimit)
func *memoryQueue.Update(mq, ctx, limiterRuleID, updateReq) (err)
  property P16
  option nopanic on
  requires mqueueOK(mq) && ctx != nil && hasLogger(ctx) && limiterRuleID == lo_rule && updateReq != nil && updateReq.MaxItems != nil
  modifies atomic(mq.configuredLimit), ghost lo_has, ghost lo_limit, ghost lo_err, ghost lo_found
  ensures [limit-as-requested] err == nil ==> load(mq.configuredLimit) == *updateReq.MaxItems && lo_limit[mq.queueName] == *updateReq.MaxItems
  ensures [kept-when-refused] err != nil ==> load(mq.configuredLimit) == old(load(mq.configuredLimit))
  ensures [refused-when-not-enforced] (err == nil) == (lo_err == nil && lo_found == 1) && srvErr(err)
  ensures [only-this-queue] others(mq.queueName)
func *memoryQueue.Destroy(mq, ctx, limiterRuleID, queueID) (err)
  property P16
  option nopanic on
  requires mqueueOK(mq) && ctx != nil && hasLogger(ctx) && limiterRuleID == lo_rule
  modifies ghost lo_has, ghost lo_limit, ghost lo_err, ghost lo_found
  ensures [limit-removed] err == nil ==> !(mq.queueName in lo_has)
  ensures [refused-when-not-removed] (err == nil) == (lo_err == nil && lo_found == 1) && srvErr(err)
  ensures [only-this-queue] others(mq.queueName)

package internal/willow/brokers/queue_channels
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
# what the channels of the queues were told
ghost qc_ops int
ghost qc_op string
ghost qc_name string
ghost qc_arg any
ghost qc_err *errors.ServerError
ghost qc_item *v1willow.Item
ghost qc_channels v1willow.Channels
func QueueChannelsClient.Channels(c, ctx, name, query) (chs)
  set qc_ops = qc_ops + 1
  set qc_op = "Channels"
  set qc_name = name
  set qc_arg = box(query, *qa.AssociatedActionQuery)
  set qc_channels = chs
  ensures forall i int {chs[i]} :: 0 <= i && i < len(chs) ==> channelOK(chs[i])
func QueueChannelsClient.EnqueueQueueItem(c, ctx, name, item) (err)
  set qc_ops = qc_ops + 1
  set qc_op = "Enqueue"
  set qc_name = name
  set qc_arg = box(item, *v1willow.Item)
  set qc_err = err
  ensures srvErr(err)
func QueueChannelsClient.DequeueQueueItem(c, ctx, name, query) (item, ok, failed, err)
  set qc_ops = qc_ops + 1
  set qc_op = "Dequeue"
  set qc_name = name
  set qc_arg = box(query, *qa.AssociatedActionQuery)
  set qc_err = err
  set qc_item = item
  ensures srvErr(err) && (err == nil ==> item != nil && itemSpecOK(item.Spec) && item.State != nil && item.State.ID != "" && ok != nil && failed != nil && ok != failed)
func QueueChannelsClient.DestroyChannelsForQueue(c, ctx, name) (err)
  set qc_ops = qc_ops + 1
  set qc_op = "Destroy"
  set qc_name = name
  set qc_err = err
  ensures srvErr(err)
func QueueChannelsClient.DeleteChannel(c, ctx, name, kvs) (err)
  set qc_ops = qc_ops + 1
  set qc_op = "Delete"
  set qc_name = name
  set qc_arg = box(kvs, datatypes.KeyValues)
  set qc_err = err
  ensures srvErr(err)
func QueueChannelsClient.ACK(c, ctx, name, ack) (err)
  set qc_ops = qc_ops + 1
  set qc_op = "Ack"
  set qc_name = name
  set qc_arg = box(ack, *v1willow.ACK)
  set qc_err = err
  ensures srvErr(err)
func QueueChannelsClient.Heartbeat(c, ctx, name, hb) (err)
  set qc_ops = qc_ops + 1
  set qc_op = "Heartbeat"
  set qc_name = name
  set qc_arg = box(hb, *v1willow.Heartbeat)
  set qc_err = err
  ensures srvErr(err)

package internal/willow/brokers/queues
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
import memory internal/willow/brokers/queues/memory
# the limit each queue answers with, and what queues were asked
ghost qu_limit smap[any]int
ghost qu_new int
ghost qu_new_with *v1willow.Queue
ghost qu_made any
ghost qu_err *errors.ServerError
ghost qu_upd int
ghost qu_upd_on any
ghost qu_upd_with *v1willow.QueueProperties
ghost qu_del int
ghost qu_del_on any
func Queue.ConfiguredLimit(q) (n)
  ensures n == qu_limit[q]
func Queue.Update(q, ctx, rule, p) (err)
  requires [valid] p != nil && p.MaxItems != nil && rule == lo_rule && hasLogger(ctx)
  set qu_upd = qu_upd + 1
  set qu_upd_on = q
  set qu_upd_with = p
  set qu_err = err
  set qu_limit = upd(qu_limit, q, *p.MaxItems) when err == nil
  ensures srvErr(err)
func Queue.Destroy(q, ctx, rule, name) (err)
  requires rule == lo_rule && hasLogger(ctx)
  set qu_del = qu_del + 1
  set qu_del_on = q
  set qu_err = err
  ensures srvErr(err)
func QueueConstructor.New(c, ctx, queue, rule) (q, err)
  requires [valid] queue != nil && queueSpecOK(queue.Spec) && rule == lo_rule && hasLogger(ctx)
  set qu_new = qu_new + 1
  set qu_new_with = queue
  set qu_made = q
  set qu_err = err
  set qu_limit = upd(qu_limit, q, *queue.Spec.Properties.MaxItems) when err == nil
  ensures srvErr(err)
  ensures err == nil ==> q != nil && is(q, Queue) && (forall n string {qt_at[n]} :: n in qt_has ==> qt_at[n] != q)
func NewQueueConstructor(kind, limiterClient) (c, err)
  property P16
  modifies
  ensures [a-queue-backend-or-an-error] (err == nil) == (kind == "memory") && (err == nil) == (c != nil)
func *memoryConstrutor.New(mc, ctx, queue, limiterRuleID) (q, err)
  property P16
  requires ctx != nil && hasLogger(ctx) && queue != nil && queueSpecOK(queue.Spec) && mc.limiterClient != nil && limiterRuleID == lo_rule
  modifies ghost lo_has, ghost lo_limit, ghost lo_err
  ensures [limit-as-requested] err == nil ==> is(q, *memory.memoryQueue) && isfresh(as(q, *memory.memoryQueue)) && load(as(q, *memory.memoryQueue).configuredLimit) == *queue.Spec.Properties.MaxItems && as(q, *memory.memoryQueue).queueName == *queue.Spec.DBDefinition.Name
  ensures srvErr(err)

# ---------- the queues of the service ----------
define queueShape(s *v1willow.QueueSpec) bool = s != nil && s.DBDefinition != nil && s.DBDefinition.Name != nil && s.Properties != nil && s.Properties.MaxItems != nil
define listed(qs v1willow.Queues) bool = forall i int {qs[i]} :: 0 <= i && i < len(qs) ==> qs[i] != nil && queueShape(qs[i].Spec) && qs[i].State != nil && *qs[i].Spec.DBDefinition.Name in qt_has && *qs[i].Spec.Properties.MaxItems == qu_limit[qt_at[*qs[i].Spec.DBDefinition.Name]]
define inList(n string, qs v1willow.Queues) bool = exists i int {qs[i]} :: 0 <= i && i < len(qs) && *qs[i].Spec.DBDefinition.Name == n
define qcl_ok(c *queueClientLocal) bool = c != nil && c.queueConstructor != nil && c.queues != nil && c.queueChannelsClient != nil && c.limiterRuleID == lo_rule
define quuntouched() bool = qu_new == 0 && qu_upd == 0 && qu_del == 0
define same_queues() bool = qt_has == old(qt_has) && qt_at == old(qt_at)
define same_limits() bool = qu_limit == old(qu_limit)
define told(op string, name string) bool = qc_ops == 1 && qc_op == op && qc_name == name
define reachable_q(name string) bool = name in qt_has && !(name in qt_dying)
func errorMissingQueueName(name) (err)
  property P16
  modifies
  ensures [not-found] err != nil && isfresh(err) && err.StatusCode == 404 && err.Message != ""
func *queueClientLocal.CreateQueue(qcl, ctx, queueCreate) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0 && queueCreate != nil && queueSpecOK(queueCreate.Spec)
  let name = *queueCreate.Spec.DBDefinition.Name
  modifies ghosts
  ensures [conflict-refused] name in old(qt_has) || name in qt_dying ==> err != nil && err.StatusCode == 409 && qu_new == 0 && same_queues() && same_limits()
  ensures [made-once-as-given] !(name in old(qt_has) || name in qt_dying) ==> qu_new == 1 && qu_new_with == queueCreate && err == qu_err
  ensures [stored-under-its-name] err == nil ==> qt_has == add(old(qt_has), name) && qt_at == upd(old(qt_at), name, qu_made) && qu_limit[qt_at[name]] == *queueCreate.Spec.Properties.MaxItems
  ensures [refused-stores-nothing] err != nil ==> same_queues()
  ensures [other-queues-kept] forall n string {qt_at[n]} :: n in old(qt_has) ==> qu_limit[qt_at[n]] == old(qu_limit)[old(qt_at)[n]]
  ensures [nothing-else] qu_upd == 0 && qu_del == 0 && qc_ops == 0
  ensures srvErr(err)
func *queueClientLocal.ListQueues(qcl, ctx) (queues, err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [reads-only] quuntouched() && qc_ops == 0 && same_queues() && same_limits()
  ensures [every-listed-queue-exists] err == nil && listed(queues)
  ensures [every-queue-is-listed] err == nil && (forall k datatypes.EncapsulatedValue {sk(k)} :: skOK(k) && sk(k) in qt_has && !(sk(k) in qt_dying) ==> inList(sk(k), queues))
  loop 1
    local queues v1willow.Queues
    invariant len(queues) == $k && listed(queues) && same_limits()
    invariant forall k datatypes.EncapsulatedValue {$seen[k]} :: $seen[k] ==> inList(sk(k), queues)
func *queueClientLocal.GetQueue(qcl, ctx, queueName) (queue, err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [reads-only] quuntouched() && qc_ops == 0 && same_queues() && same_limits()
  ensures [missing] !(queueName in qt_has) && !(queueName in qt_dying) ==> err != nil && err.StatusCode == 404 && queue == nil
  ensures [being-destroyed] queueName in qt_dying ==> err != nil && err.StatusCode == 409 && queue == nil
  ensures [found] reachable_q(queueName) ==> err == nil && queue != nil && queueShape(queue.Spec) && queue.State != nil && *queue.Spec.DBDefinition.Name == queueName && *queue.Spec.Properties.MaxItems == qu_limit[qt_at[queueName]]
  ensures srvErr(err)
func *queueClientLocal.UpdateQueue(qcl, ctx, queueName, queueUpdate) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0 && queueUpdate != nil && queueUpdate.MaxItems != nil
  modifies ghosts
  ensures [missing] !(queueName in qt_has) && !(queueName in qt_dying) ==> err != nil && err.StatusCode == 404 && qu_upd == 0
  ensures [being-destroyed] queueName in qt_dying ==> err != nil && err.StatusCode == 409 && qu_upd == 0
  ensures [changed-once-as-given] reachable_q(queueName) ==> qu_upd == 1 && qu_upd_on == qt_at[queueName] && qu_upd_with == queueUpdate && err == qu_err
  ensures [nothing-else] qu_new == 0 && qu_del == 0 && qc_ops == 0 && same_queues()
  ensures srvErr(err)
func *queueClientLocal.DeleteQueue(qcl, ctx, queueName) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [missing-changes-nothing] !(queueName in old(qt_has)) && !(queueName in qt_dying) ==> err == nil && qc_ops == 0 && qu_del == 0
  ensures [being-destroyed] queueName in qt_dying ==> err != nil && err.StatusCode == 409 && qc_ops == 0 && qu_del == 0
  ensures [channels-first] queueName in old(qt_has) && !(queueName in qt_dying) ==> told("Destroy", queueName)
  ensures [then-its-limit] told("Destroy", queueName) ==> qu_del == (qc_err == nil ? 1 : 0) && (qu_del == 1 ==> qu_del_on == old(qt_at)[queueName] && err == qu_err) && (qu_del == 0 ==> err == qc_err)
  ensures [removed-when-both-are-gone] err == nil ==> qt_has == remove(old(qt_has), queueName)
  ensures [kept-when-refused] err != nil ==> qt_has == old(qt_has)
  ensures [nothing-else] qu_new == 0 && qu_upd == 0 && qt_at == old(qt_at)
  ensures srvErr(err)
func *queueClientLocal.QueryChannels(qcl, ctx, queueName, query) (channels, err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Channels", queueName) && qc_arg == box(query, *qa.AssociatedActionQuery) && err == nil && channels == qc_channels
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && len(channels) == 0
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)
func *queueClientLocal.Enqueue(qcl, ctx, queueName, enqueueItem) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Enqueue", queueName) && qc_arg == box(enqueueItem, *v1willow.Item) && err == qc_err
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && err != nil && (err.StatusCode == 404 || queueName in qt_dying)
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)
func *queueClientLocal.Dequeue(qcl, ctx, queueName, dequeueQuery) (item, onSuccess, onFailure, err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Dequeue", queueName) && qc_arg == box(dequeueQuery, *qa.AssociatedActionQuery) && err == qc_err && item == qc_item
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && item == nil && err != nil && (err.StatusCode == 404 || queueName in qt_dying)
  ensures [with-its-callbacks] err == nil ==> item != nil && onSuccess != nil && onFailure != nil && onSuccess != onFailure
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)
func *queueClientLocal.DeleteChannel(qcl, ctx, queueName, channelKeyValues) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Delete", queueName) && qc_arg == box(channelKeyValues, datatypes.KeyValues) && err == qc_err
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && err != nil && (err.StatusCode == 404 || queueName in qt_dying)
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)
func *queueClientLocal.Ack(qcl, ctx, queueName, ack) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Ack", queueName) && qc_arg == box(ack, *v1willow.ACK) && err == qc_err
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && err != nil && err.StatusCode == (queueName in qt_dying ? 409 : 404)
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)
func *queueClientLocal.Heartbeat(qcl, ctx, queueName, heartbeat) (err)
  property P16
  requires qcl_ok(qcl) && ctx != nil && hasLogger(ctx) && quuntouched() && qc_ops == 0
  modifies ghosts
  ensures [only-the-named-queue] reachable_q(queueName) ==> told("Heartbeat", queueName) && qc_arg == box(heartbeat, *v1willow.Heartbeat) && err == qc_err
  ensures [missing] !reachable_q(queueName) ==> qc_ops == 0 && err != nil && err.StatusCode == (queueName in qt_dying ? 409 : 404)
  ensures [nothing-else] quuntouched() && same_queues()
  ensures srvErr(err)

# ---------- the channels of the queues ----------
package internal/datastructures/btree_one_to_many
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
import v1 pkg/models/api/common/v1
import constructor internal/willow/brokers/queue_channels/constructor
# the channels stored, and the queues whose channels are being destroyed by another request
ghost ct_items set[any]
ghost ct_dying set[string]
ghost ct_added int
ghost ct_deletes int
declare otmKV(a any, k string) datatypes.EncapsulatedValue
define ctItem(a any, one string) bool = a != nil && a in ct_items && otmOne(a) == one && otmValue(a) != nil && is(otmValue(a), constructor.QueueChannel)
define exactKVs(a any, kvs map[string]datatypes.EncapsulatedValue) bool = forall k string {otmHas(a, k)} {k in kvs} :: (k in kvs) == otmHas(a, k) && (k in kvs ==> kvs[k] == otmKV(a, k))
define exactSel(q *qa.AssociatedActionQuery) bool = len(q.Or) == 0 && len(q.And) == 0 && q.Selection != nil && len(q.Selection.IDs) == 0 && q.Selection.MinNumberOfKeyValues != nil && *q.Selection.MinNumberOfKeyValues == len(q.Selection.KeyValues) && q.Selection.MaxNumberOfKeyValues != nil && *q.Selection.MaxNumberOfKeyValues == len(q.Selection.KeyValues) && (forall k string {k in q.Selection.KeyValues} :: k in q.Selection.KeyValues ==> q.Selection.KeyValues[k].Comparison == v1.Equals && q.Selection.KeyValues[k].TypeRestrictions.MinDataType == q.Selection.KeyValues[k].Value.Type && q.Selection.KeyValues[k].TypeRestrictions.MaxDataType == q.Selection.KeyValues[k].Value.Type)
define exactItem(a any, q *qa.AssociatedActionQuery) bool = forall k string {otmHas(a, k)} {k in q.Selection.KeyValues} :: (k in q.Selection.KeyValues) == otmHas(a, k) && (k in q.Selection.KeyValues ==> q.Selection.KeyValues[k].Value == otmKV(a, k))
func OneToManyItem.ManyKeyValues(a) (m) for internal/willow/brokers/queue_channels
  ensures m != nil && isfresh(m) && typedKVs(m) && exactKVs(a, m)
func BTreeOneToMany.CreateOrFind(t, one, kvs, onCreate, onFind) (id, err) for internal/willow/brokers/queue_channels
  requires one != "" && typedKVs(kvs)
  calls onCreate() maybe if !(one in ct_dying)
    yields [a-channel-or-nothing] ret == nil || is(ret, constructor.QueueChannel)
  calls onFind(a OneToManyItem) maybe if !called_onCreate && !(one in ct_dying)
    where ctItem(a, one) && exactKVs(a, kvs)
  set ct_added = ct_added + 1 when called_onCreate && ret_onCreate != nil
  ensures err == nil ==> called_onCreate || called_onFind
  ensures called_onCreate || called_onFind ==> err == nil
func BTreeOneToMany.QueryAction(t, one, query, onIterate) (err) for internal/willow/brokers/queue_channels
  requires [a-query] query != nil && one != "" && (qvalid(query) || plainQuery(query) && selValid(query.Selection))
  calls onIterate(a OneToManyItem) many all stop if !(one in ct_dying)
    where ctItem(a, one) && (exactSel(query) ? exactItem(a, query) : otmSelects(t, one, query, a))
  ensures err == (one in ct_dying ? ErrorOneIDDestroying : nil)
func BTreeOneToMany.DeleteOneOfManyByKeyValues(t, one, kvs, canDelete) (err) for internal/willow/brokers/queue_channels
  requires one != "" && anyKVs(kvs)
  calls canDelete(a OneToManyItem) maybe if !(one in ct_dying)
    where ctItem(a, one) && exactKVs(a, kvs)
    yields [dropped-only-when-it-ended] ret == (otmValue(a) in ch_ended)
  set ct_deletes = ct_deletes + 1
  ensures one in ct_dying ==> err == ErrorOneIDDestroying
  ensures !(one in ct_dying) ==> err == nil || err == ErrorManyKeyValuesDestroying
  ensures called_canDelete ==> err == nil
func BTreeOneToMany.DestroyOne(t, one, canDelete) (err) for internal/willow/brokers/queue_channels
  requires one != ""
  calls canDelete(a OneToManyItem) many all stop if !(one in ct_dying)
    where ctItem(a, one)
    yields [dropped-only-when-it-ended] ret == (otmValue(a) in ch_ended)
  ensures err == (one in ct_dying ? ErrorOneIDDestroying : nil)

package internal/willow/brokers/queue_channels/constructor
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
# what the channels were asked
ghost ch_ops int
ghost ch_op string
ghost ch_on any
ghost ch_with any
ghost ch_err *errors.ServerError
ghost ch_last bool
ghost ch_forced set[any]
ghost ch_ended set[any]
ghost ch_offered int
ghost cc_new int
ghost cc_made any
ghost cc_name string
ghost cc_kvs map[string]datatypes.EncapsulatedValue
import datatypes pkg/models/datatypes
func QueueChannelsConstrutor.New(c, deleteCallback, name, kvs) (q)
  requires deleteCallback != nil
  calls deleteCallback() later
  set cc_new = cc_new + 1
  set cc_made = q
  set cc_name = name
  set cc_kvs = kvs
  ensures q != nil && is(q, QueueChannel)
func QueueChannel.Enqueue(q, ctx, item) (err)
  requires hasLogger(ctx)
  set ch_ops = ch_ops + 1
  set ch_op = "Enqueue"
  set ch_on = q
  set ch_with = box(item, *v1willow.Item)
  set ch_err = err
  ensures srvErr(err)
func QueueChannel.ACK(q, ctx, ack) (last, err)
  requires hasLogger(ctx)
  set ch_ops = ch_ops + 1
  set ch_op = "ACK"
  set ch_on = q
  set ch_with = box(ack, *v1willow.ACK)
  set ch_err = err
  set ch_last = last
  ensures srvErr(err)
func QueueChannel.Heartbeat(q, ctx, hb) (err)
  requires hasLogger(ctx)
  set ch_ops = ch_ops + 1
  set ch_op = "Heartbeat"
  set ch_on = q
  set ch_with = box(hb, *v1willow.Heartbeat)
  set ch_err = err
  ensures srvErr(err)
func QueueChannel.ForceDelete(q, ctx) ()
  requires hasLogger(ctx)
  set ch_forced = add(ch_forced, q)
  set ch_ended = add(ch_ended, q)
func QueueChannel.Delete(q) (ok)
  set ch_ended = add(ch_ended, q) when ok
  ensures old(q in ch_ended) ==> ok
func QueueChannel.Dequeue(q) (c)

package internal/willow/brokers/queue_channels
define qccl_ok(c *queueChannelsClientLocal) bool = c != nil && c.queueChannels != nil && c.queueChannelsConstructor != nil && c.clientsWaitingLock != nil && c.asyncManager != nil
define chuntouched() bool = ch_ops == 0 && cc_new == 0 && ct_added == 0 && ct_deletes == 0 && ch_forced == emptyset(any) && ch_ended == emptyset(any)
define chanOf(c any, one string, kvs map[string]datatypes.EncapsulatedValue) bool = exists a any {a in ct_items} :: ctItem(a, one) && exactKVs(a, kvs) && otmValue(a) == c
define hasChan(one string, kvs map[string]datatypes.EncapsulatedValue) bool = exists a any {a in ct_items} :: ctItem(a, one) && exactKVs(a, kvs)
define askedCh(op string, one string, kvs map[string]datatypes.EncapsulatedValue) bool = ch_ops == 1 && ch_op == op && chanOf(ch_on, one, kvs)
func *queueChannelsClientLocal.DestroyChannelsForQueue(c, ctx, queueName) (err)
  property P16
  option nopanic on
  requires qccl_ok(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != ""
  modifies ghosts
  ensures [every-channel-of-the-queue] err == nil ==> (forall a any {a in ct_items} :: ctItem(a, queueName) ==> otmValue(a) in ch_forced)
  ensures [no-other-channel] forall q any {q in ch_forced} :: q in ch_forced ==> (exists a any {a in ct_items} :: ctItem(a, queueName) && otmValue(a) == q)
  ensures [already-being-destroyed] queueName in ct_dying ==> err != nil
  ensures srvErr(err)
  loop 1
    invariant ch_ops == 0
    invariant forall a any {$seen[a]} :: $seen[a] ==> otmValue(a) in ch_forced
    invariant forall q any {q in ch_forced} :: q in ch_forced ==> (exists a any {a in ct_items} :: ctItem(a, queueName) && otmValue(a) == q)
func *queueChannelsClientLocal.DeleteChannel(c, ctx, queueName, channelKeyValues) (err)
  property P16
  option nopanic on
  requires qccl_ok(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != "" && anyKVs(channelKeyValues)
  modifies ghosts
  ensures [only-that-channel] forall q any {q in ch_forced} :: q in ch_forced ==> chanOf(q, queueName, channelKeyValues)
  ensures [already-being-destroyed] queueName in ct_dying ==> err != nil && err.StatusCode == 409
  ensures srvErr(err)
func *queueChannelsClientLocal.attemptDeleteChannel(c, logger, queueName, channelKeyValues) ()
  property P16
  option nopanic on
  requires qccl_ok(c) && logger != nil && queueName != "" && anyKVs(channelKeyValues)
  modifies ghosts
  ensures [nothing-else] ch_ops == old(ch_ops) && ch_forced == old(ch_forced)
define waitersOK(c *queueChannelsClientLocal) bool = forall i int {c.clientsWaiting[i]} :: 0 <= i && i < len(c.clientsWaiting) ==> c.clientsWaiting[i].query != nil && qvalid(c.clientsWaiting[i].query) && c.clientsWaiting[i].channelOPS != nil
func *queueChannelsClientLocal.updateClientsWaiting(c, queueName, channelTags, channel) ()
  property P16
  option definitions assume
  requires qccl_ok(c) && waitersOK(c) && wfKVs(channelTags)
  modifies locks
  ensures [lock-released] locks_unchanged()
func *queueChannelsClientLocal.EnqueueQueueItem(c, ctx, queueName, enqueueItem) (err)
  property P16
  requires qccl_ok(c) && waitersOK(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != "" && enqueueItem != nil && itemSpecOK(enqueueItem.Spec)
  let kvs = enqueueItem.Spec.DBDefinition.KeyValues
  modifies ghosts, locks
  ensures [given-once-to-a-channel-of-its-key-values] ch_ops <= 1 && (ch_ops == 1 ==> ch_op == "Enqueue" && ch_with == box(enqueueItem, *v1willow.Item) && err == ch_err && (cc_new == 0 ==> chanOf(ch_on, queueName, kvs)))
  ensures [or-to-a-new-one] cc_new <= 1 && (cc_new == 1 ==> cc_name == queueName && cc_kvs == kvs && ch_ops == 1 && ch_on == cc_made && ct_added == (ch_err == nil ? 1 : 0))
  ensures [accepted-only-when-stored] err == nil ==> ch_ops == 1 && ch_err == nil
  ensures srvErr(err)
func *queueChannelsClientLocal.ACK(c, ctx, queueName, ack) (err)
  property P16
  option nopanic on
  requires qccl_ok(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != "" && !(queueName in ct_dying) && ack != nil && anyKVs(ack.KeyValues)
  modifies ghosts
  ensures [missing] !hasChan(queueName, ack.KeyValues) ==> err != nil && err.StatusCode == 404 && ch_ops == 0
  ensures [asked-once] hasChan(queueName, ack.KeyValues) ==> askedCh("ACK", queueName, ack.KeyValues) && ch_with == box(ack, *v1willow.ACK) && err == ch_err
  ensures [deleted-only-when-empty] ct_deletes == (ch_ops == 1 && ch_last ? 1 : 0)
  ensures srvErr(err)
  loop 1
    local tryDelete bool
    local ackErr *errors.ServerError
    invariant $k <= 1 && ct_deletes == 0 && ch_ops == $k
    invariant $k == 0 ==> !tryDelete && ackErr != nil && ackErr.StatusCode == 404 && ackErr.Message != ""
    invariant $k == 1 ==> askedCh("ACK", queueName, ack.KeyValues) && ch_with == box(ack, *v1willow.ACK) && ackErr == ch_err && tryDelete == ch_last && srvErr(ackErr)
func *queueChannelsClientLocal.Heartbeat(c, ctx, queueName, heartbeat) (err)
  property P16
  option nopanic on
  requires qccl_ok(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != "" && !(queueName in ct_dying) && heartbeat != nil && anyKVs(heartbeat.KeyValues)
  modifies ghosts
  ensures [missing] !hasChan(queueName, heartbeat.KeyValues) ==> err != nil && err.StatusCode == 404 && ch_ops == 0
  ensures [asked-once] hasChan(queueName, heartbeat.KeyValues) ==> askedCh("Heartbeat", queueName, heartbeat.KeyValues) && ch_with == box(heartbeat, *v1willow.Heartbeat) && err == ch_err
  ensures srvErr(err)
  loop 1
    local heartbeatErr *errors.ServerError
    invariant $k <= 1 && ch_ops == $k
    invariant $k == 0 ==> heartbeatErr != nil && heartbeatErr.StatusCode == 404 && heartbeatErr.Message != ""
    invariant $k == 1 ==> askedCh("Heartbeat", queueName, heartbeat.KeyValues) && ch_with == box(heartbeat, *v1willow.Heartbeat) && heartbeatErr == ch_err && srvErr(heartbeatErr)
func *queueChannelsClientLocal.Channels(c, ctx, queueName, query) (chs)
  property P16
  option nopanic on
  requires qccl_ok(c) && ctx != nil && hasLogger(ctx) && chuntouched() && queueName != "" && !(queueName in ct_dying) && query != nil && qvalid(query)
  modifies ghosts
  ensures [well-formed] forall i int {chs[i]} :: 0 <= i && i < len(chs) ==> channelOK(chs[i])
  ensures [nothing-else] ch_ops == 0 && ch_forced == emptyset(any)
  loop 1
    local channels v1willow.Channels
    invariant len(channels) == $k && chuntouched() && (len(channels) != 0 ==> isfresh(arr(channels)))
    invariant forall i int {channels[i]} :: 0 <= i && i < len(channels) ==> channelOK(channels[i])
