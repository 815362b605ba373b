# Clients: what is sent, and which answers count as success.
package pkg/clients
import encoding pkg/encoding
import http net/http
import time time
import bytes bytes
ghost sent int
ghost sent_method string
ghost sent_url string
ghost sent_encoded bool
ghost sent_src any
ghost sent_body bool
ghost sent_type string
ghost got_ok bool
ghost got_status int
ghost req_ok bool
ghost json_src any
ghost json_out []byte
declare reqMethod(r *http.Request) string
declare reqURL(r *http.Request) string
declare reqBody(r *http.Request) any
declare reqHeader(r *http.Request) http.Header
ghost headers smap[int]smap[string]string
declare bufData(b *bytes.Buffer) []byte

extern bytes:NewBuffer(data) (b)
  ensures b != nil && bufData(b) == data
extern net/http:NewRequest(method, url, body) (req, err)
  set req_ok = err == nil
  ensures err == nil ==> req != nil && reqMethod(req) == method && reqURL(req) == url && reqBody(req) == body && req.Header != nil && req.Header == reqHeader(req)
extern net/http:NewRequestWithContext(ctx, method, url, body) (req, err)
  set req_ok = err == nil
  ensures err == nil ==> req != nil && reqMethod(req) == method && reqURL(req) == url && reqBody(req) == body && req.Header != nil && req.Header == reqHeader(req)
# the deadline of a heartbeating goroutine: beat is the moment of its start or of the last accepted heartbeat
ghost beat time.Time
ghost beat_at int
ghost elapsed int
ghost elapsed_at int
ghost reset_to int
ghost reset_at int
extern time:Now() (t) for pkg/clients
  set beat = t when sent == 0 || (got_ok && got_status == 200)
  set beat_at = sent when sent == 0 || (got_ok && got_status == 200)
extern time:Since(t) (d) for pkg/clients
  requires [deadline-counts-from-the-last-accepted-heartbeat] t == beat
  set elapsed = d
  set elapsed_at = sent
extern time:NewTicker(d) (t) for pkg/clients
  requires [positive-interval] d > 0
  ensures t != nil
extern time:*Ticker.Reset(t, d) () for pkg/clients
  requires [only-accepted-heartbeats-extend] d > 0 && got_ok && got_status == 200
  set reset_to = d
  set reset_at = sent
extern net/http:Header.Set(h, k, v)
  set headers = upd(headers, h, upd(headers[h], k, v))
extern net/http:Header.Add(h, k, v)
  set headers = upd(headers, h, upd(headers[h], k, v))
extern net/http:*Client.Do(c, req) (resp, err)
  requires [a-request] c != nil && req != nil
  set sent = sent + 1
  set sent_method = reqMethod(req)
  set sent_url = reqURL(req)
  set sent_body = reqBody(req) != nil
  set sent_encoded = bufData(as(reqBody(req), *bytes.Buffer)) == json_out
  set sent_src = json_src
  set sent_type = headers[req.Header]["Content-Type"]
  set got_ok = err == nil
  set got_status = err == nil ? resp.StatusCode : 0
  ensures err == nil ==> resp != nil && resp.Body != nil
func AddHeadersFromContext(req, ctx)
  property P20
  modifies ghost headers
  requires req != nil && req.Header != nil && req.Header == reqHeader(req)
  ensures headers[req.Header]["Content-Type"] != "" && (ctx == nil ==> headers[req.Header]["Content-Type"] == "application/json")

# ---------- limiter client ----------
package pkg/clients/limiter_client
import v1limiter pkg/models/api/limiter/v1
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
define rulesListOK(rs v1limiter.Rules) bool = forall i int :: 0 <= i && i < len(rs) ==> rs[i] != nil && ruleOK(rs[i])
define countersListOK(rs v1limiter.Counters) bool = forall i int :: 0 <= i && i < len(rs) ==> rs[i] != nil && counterSpecOK(rs[i].Spec) && rs[i].State != nil
func *LimitClient.CreateRule(lc, ctx, rule) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && rule != nil
  ensures [invalid-refused-unsent] !(ruleOK(rule)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (ruleOK(rule)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "POST" && sent_url == lc.url + "/v1/limiter/rules" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(rule, *v1limiter.Rule)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 201 && json_ok && ruleOK(as(json_doc, *v1limiter.Rule))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 201 && json_ok && ruleOK(as(json_doc, *v1limiter.Rule)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == as(json_doc, *v1limiter.Rule)
func *LimitClient.GetRule(lc, ctx, name) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/" + name && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && ruleOK(as(json_doc, *v1limiter.Rule))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && ruleOK(as(json_doc, *v1limiter.Rule)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == as(json_doc, *v1limiter.Rule)
func *LimitClient.QueryRules(lc, ctx, query) (res, err)
  property P20
  modifies ghosts
  option definitions assume
  requires lc.client != nil && sent == 0 && json_enc && query != nil
  ensures [invalid-refused-unsent] !(qvalid(query)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (qvalid(query)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/query" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(query, *qa.AssociatedActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && rulesListOK(*as(json_doc, *v1limiter.Rules))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && rulesListOK(*as(json_doc, *v1limiter.Rules)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1limiter.Rules)
func *LimitClient.MatchRules(lc, ctx, match) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && match != nil
  ensures [invalid-refused-unsent] !(matchOK(match)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (matchOK(match)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/match" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(match, *qm.MatchActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && rulesListOK(*as(json_doc, *v1limiter.Rules))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && rulesListOK(*as(json_doc, *v1limiter.Rules)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1limiter.Rules)
func *LimitClient.UpdateRule(lc, ctx, name, update) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && update != nil
  ensures [invalid-refused-unsent] !(limitOK(update.Limit)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (limitOK(update.Limit)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "PUT" && sent_url == lc.url + "/v1/limiter/rules/" + name && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(update, *v1limiter.RuleProperties)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *LimitClient.DeleteRule(lc, ctx, name) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "DELETE" && sent_url == lc.url + "/v1/limiter/rules/" + name && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 204
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 204 ==> err == nil
func *LimitClient.CreateOverride(lc, ctx, name, override) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && override != nil
  ensures [invalid-refused-unsent] !(overrideSpecOK(override.Spec)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (overrideSpecOK(override.Spec)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "POST" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(override, *v1limiter.Override)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 201 && json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec) && as(json_doc, *v1limiter.Override).State != nil
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 201 && json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec) && as(json_doc, *v1limiter.Override).State != nil ==> err == nil
  ensures [decoded-result] err == nil ==> res == as(json_doc, *v1limiter.Override)
func *LimitClient.QueryOverrides(lc, ctx, name, query) (res, err)
  property P20
  modifies ghosts
  option definitions assume
  requires lc.client != nil && sent == 0 && json_enc && query != nil
  ensures [invalid-refused-unsent] !(qvalid(query)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (qvalid(query)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides/query" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(query, *qa.AssociatedActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && overridesOK(*as(json_doc, *v1limiter.Overrides))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && overridesOK(*as(json_doc, *v1limiter.Overrides)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1limiter.Overrides)
func *LimitClient.MatchOverrides(lc, ctx, name, match) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && match != nil
  ensures [invalid-refused-unsent] !(matchOK(match)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (matchOK(match)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides/match" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(match, *qm.MatchActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && overridesOK(*as(json_doc, *v1limiter.Overrides))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && overridesOK(*as(json_doc, *v1limiter.Overrides)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1limiter.Overrides)
func *LimitClient.GetOverride(lc, ctx, name, override) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides/" + override && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec) && as(json_doc, *v1limiter.Override).State != nil
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec) && as(json_doc, *v1limiter.Override).State != nil ==> err == nil
  ensures [decoded-result] err == nil ==> res == as(json_doc, *v1limiter.Override)
func *LimitClient.UpdateOverride(lc, ctx, name, override, update) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && update != nil
  ensures [invalid-refused-unsent] !(limitOK(update.Limit)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (limitOK(update.Limit)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "PUT" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides/" + override && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(update, *v1limiter.OverrideProperties)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *LimitClient.DeleteOverride(lc, ctx, name, override) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "DELETE" && sent_url == lc.url + "/v1/limiter/rules/" + name + "/overrides/" + override && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 204
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 204 ==> err == nil
func *LimitClient.UpdateCounter(lc, ctx, counter) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && counter != nil
  ensures [invalid-refused-unsent] !(counterSpecOK(counter.Spec)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (counterSpecOK(counter.Spec)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "PUT" && sent_url == lc.url + "/v1/limiter/counters" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(counter, *v1limiter.Counter)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *LimitClient.SetCounters(lc, ctx, counter) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && counter != nil
  ensures [invalid-refused-unsent] !(counterSpecOK(counter.Spec)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (counterSpecOK(counter.Spec)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "PUT" && sent_url == lc.url + "/v1/limiter/counters/set" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(counter, *v1limiter.Counter)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *LimitClient.QueryCounters(lc, ctx, query) (res, err)
  property P20
  modifies ghosts
  option definitions assume
  requires lc.client != nil && sent == 0 && json_enc && query != nil
  ensures [invalid-refused-unsent] !(qvalid(query)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (qvalid(query)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/limiter/counters/query" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(query, *qa.AssociatedActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && countersListOK(*as(json_doc, *v1limiter.Counters))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && countersListOK(*as(json_doc, *v1limiter.Counters)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1limiter.Counters)
func *LimitClient.Healthy(lc) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/health"
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil

# ---------- willow client ----------
package pkg/clients/willow_client
import v1willow pkg/models/api/willow/v1
import http net/http
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
define queuesListOK(qs v1willow.Queues) bool = forall i int :: 0 <= i && i < len(qs) ==> qs[i] != nil && queueSpecOK(qs[i].Spec) && qs[i].State != nil
define itemAnswerOK(i *v1willow.Item) bool = itemSpecOK(i.Spec) && i.State != nil && i.State.ID != ""
func newItem(url, client, queueName, dequeued) (item)
  requires dequeued != nil && itemAnswerOK(dequeued) && client != nil
  ensures item != nil && isfresh(item)
  ensures item.url == url && item.client == client && item.queueName == queueName
  ensures item.itemID == dequeued.State.ID && item.keyValues == dequeued.Spec.DBDefinition.KeyValues && item.data == dequeued.Spec.Properties.Data
func *WillowClient.CreateQueue(lc, ctx, queue) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && queue != nil
  ensures [invalid-refused-unsent] !(queueSpecOK(queue.Spec) && queue.State == nil) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (queueSpecOK(queue.Spec) && queue.State == nil) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "POST" && sent_url == lc.url + "/v1/queues" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(queue, *v1willow.Queue)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 201
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 201 ==> err == nil
func *WillowClient.ListQueues(lc, ctx) (res, err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/queues" && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && queuesListOK(*as(json_doc, *v1willow.Queues))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && queuesListOK(*as(json_doc, *v1willow.Queues)) ==> err == nil
  ensures [decoded-result] err == nil ==> res == *as(json_doc, *v1willow.Queues)
func *WillowClient.GetQueue(lc, ctx, name, query) (res, err)
  property P20
  modifies ghosts
  option definitions assume
  requires lc.client != nil && sent == 0 && json_enc && query != nil
  ensures [invalid-refused-unsent] !(qvalid(query)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (qvalid(query)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/queues/" + name && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(query, *qa.AssociatedActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && queueSpecOK(as(json_doc, *v1willow.Queue).Spec) && as(json_doc, *v1willow.Queue).State != nil
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && queueSpecOK(as(json_doc, *v1willow.Queue).Spec) && as(json_doc, *v1willow.Queue).State != nil ==> err == nil
  ensures [decoded-result] err == nil ==> res == as(json_doc, *v1willow.Queue)
func *WillowClient.UpdateQueue(lc, ctx, name, update) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && update != nil
  ensures [invalid-refused-unsent] !(update.MaxItems != nil) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (update.MaxItems != nil) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "PUT" && sent_url == lc.url + "/v1/queues/" + name && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(update, *v1willow.QueueProperties)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *WillowClient.DeleteQueue(lc, ctx, name) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [valid-request-sent-once] json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "DELETE" && sent_url == lc.url + "/v1/queues/" + name && sent_type != ""
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 204
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 204 ==> err == nil
func *WillowClient.EnqueueQueueItem(lc, ctx, name, item) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc && item != nil
  ensures [invalid-refused-unsent] !(itemSpecOK(item.Spec) && item.State == nil) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (itemSpecOK(item.Spec) && item.State == nil) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "POST" && sent_url == lc.url + "/v1/queues/" + name + "/channels/items" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(item, *v1willow.Item)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 201
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 201 ==> err == nil
func *WillowClient.DequeueQueueItem(lc, ctx, name, query) (res, err)
  property P20
  modifies ghosts
  option definitions assume
  requires lc.client != nil && sent == 0 && json_enc && query != nil
  ensures [invalid-refused-unsent] !(qvalid(query)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (qvalid(query)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/v1/queues/" + name + "/channels/items" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(query, *qa.AssociatedActionQuery)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200 && json_ok && itemAnswerOK(as(json_doc, *v1willow.Item))
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 && json_ok && itemAnswerOK(as(json_doc, *v1willow.Item)) ==> err == nil
  ensures [decoded-result] err == nil ==> res != nil && res.itemID == as(json_doc, *v1willow.Item).State.ID && res.queueName == name && res.url == lc.url && res.client == lc.client
func *WillowClient.DeleteQueueChannel(lc, ctx, name, kvs) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0 && json_enc
  ensures [invalid-refused-unsent] !(typedKVs(kvs)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] (typedKVs(kvs)) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "DELETE" && sent_url == lc.url + "/v1/queues/" + name + "/channels" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && sent_src == box(kvs, datatypes.KeyValues)
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 204
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 204 ==> err == nil
func *Item.stop(item)
  modifies once(item.doneOnce), chan(item.done)
  requires item.doneOnce != nil && item.done != nil && (once(item.doneOnce) || !closed(item.done))
  ensures [stopped] once(item.doneOnce) && (old(!once(item.doneOnce)) ==> closed(item.done))
func *Item.forwardError(item, err)
  modifies ghost fncalls, locks
  option unknownfuncs pure
  requires item.heartbeatErrorLock != nil
  ensures locks_unchanged()
func *Item.ACK(item, ctx, passed) (err)
  property P20
  modifies ghosts, chan(item.done), once(item.doneOnce), locks
  requires item.client != nil && sent == 0 && json_enc && item.heartbeatErrorLock != nil
  requires item.doneOnce != nil && item.done != nil && (once(item.doneOnce) || !closed(item.done))
  ensures [invalid-refused-unsent] !(item.itemID != "" && typedKVs(item.keyValues)) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] item.itemID != "" && typedKVs(item.keyValues) && json_enc && req_ok ==> sent == 1
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "POST" && sent_url == item.url + "/v1/queues/" + item.queueName + "/channels/items/ack" && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && is(sent_src, v1willow.ACK) && as(sent_src, v1willow.ACK).ItemID == item.itemID && as(sent_src, v1willow.ACK).KeyValues == item.keyValues && as(sent_src, v1willow.ACK).Passed == passed
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
  ensures [heartbeating-stopped] once(item.doneOnce)
func go newItem(item *Item, client? *http.Client)
  property P20
  option unknownfuncs pure
  modifies ghosts, chan(item.done), once(item.doneOnce), locks
  requires item != nil && item.client != nil && client != nil && sent == 0 && json_enc && item.heartbeatErrorLock != nil && item.itemID != "" && typedKVs(item.keyValues)
  requires item.doneOnce != nil && item.done != nil && (once(item.doneOnce) || !closed(item.done)) && item.heartbeatTimeout > 0
  ensures [heartbeating-stopped] once(item.doneOnce)
  ensures locks_unchanged()
  loop 1
    invariant [sent-within-the-timeout] sent > 0 ==> (elapsed_at == sent-1 || elapsed_at == sent) && elapsed < item.heartbeatTimeout
    invariant [accepted-heartbeat-extends] sent > 0 && got_ok && got_status == 200 ==> beat_at == sent
    invariant [heartbeat-request] sent > 0 ==> sent_method == "POST" && sent_url == item.url + "/v1/queues/" + item.queueName + "/channels/items/heartbeat" && sent_type == "application/json"
    invariant [heartbeat-document] sent > 0 ==> sent_body && sent_encoded && is(sent_src, v1willow.Heartbeat) && as(sent_src, v1willow.Heartbeat).ItemID == item.itemID && as(sent_src, v1willow.Heartbeat).KeyValues == item.keyValues
    invariant once(item.doneOnce) || !closed(item.done)
    invariant locks_unchanged()
func *WillowClient.Healthy(lc) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/health"
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil

# ---------- locker client ----------
package pkg/clients/locker_client
import v1locker pkg/models/api/locker/v1
import http net/http
func *LockClient.Healthy(lc) (err)
  property P20
  modifies ghosts
  requires lc.client != nil && sent == 0
  ensures [documented-request] sent == 1 ==> sent_method == "GET" && sent_url == lc.url + "/health"
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 200
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 200 ==> err == nil
func *lock.stop(l)
  option unknownfuncs pure
  modifies once(l.doneOnce), chan(l.done), ghost fncalls
  requires l.doneOnce != nil && l.done != nil && (once(l.doneOnce) || !closed(l.done)) && l.releaseLockCallback != nil
  ensures [stopped] once(l.doneOnce) && (old(!once(l.doneOnce)) ==> closed(l.done))
func *lock.Release(l, ctx) (err)
  property P20
  modifies ghosts, once(l.doneOnce), chan(l.done), atomic(l.released)
  requires l.client != nil && sent == 0 && json_enc && l.released != nil && l.doneOnce != nil && l.sessionID != ""
  requires l.done != nil && (once(l.doneOnce) || !closed(l.done)) && l.releaseLockCallback != nil
  option unknownfuncs pure
  ensures [released-once] old(load(l.released) != 0) ==> err != nil && sent == 0
  ensures [valid-request-sent-once] old(load(l.released) == 0) && json_enc && req_ok ==> sent == 1
  ensures [never-again] load(l.released) != 0
  ensures [sent-at-most-once] sent <= 1
  ensures [documented-request] sent == 1 ==> sent_method == "DELETE" && sent_url == l.url + "/v1/locks/" + l.lockID && sent_type != ""
  ensures [document-sent] sent == 1 ==> sent_body && sent_encoded && is(sent_src, *v1locker.LockClaim) && as(sent_src, *v1locker.LockClaim).SessionID == l.sessionID
  ensures [success-only-when-documented] err == nil ==> sent == 1 && got_ok && got_status == 204
  ensures [documented-success-reported] sent == 1 && got_ok && got_status == 204 ==> err == nil
func go newLock(l *lock, answer? *v1locker.Lock, client? *http.Client, url? string)
  property P20
  option unknownfuncs pure
  modifies ghosts, once(l.doneOnce), chan(l.done), chan(l.heartbeating), atomic(l.released)
  requires l != nil && l.client != nil && client != nil && sent == 0 && json_enc && l.released != nil && l.doneOnce != nil && l.done != l.heartbeating
  requires l.done != nil && (once(l.doneOnce) || !closed(l.done)) && l.releaseLockCallback != nil && l.heartbeating != nil && !closed(l.heartbeating)
  requires l.timeout > 0
  requires answer != nil && lockSpecOK(answer.Spec) && lockStateOK(answer.State) && answer.Spec.Properties != nil && answer.Spec.Properties.Timeout != nil && url == l.url && answer.State.LockID == l.lockID && answer.State.SessionID == l.sessionID && l.timeout == *answer.Spec.Properties.Timeout
  ensures [lock-lost-is-reported] once(l.doneOnce) && closed(l.heartbeating) && load(l.released) != 0
  loop 1
    invariant [heartbeat-request] sent > 0 ==> sent_method == "POST" && sent_url == l.url + "/v1/locks/" + l.lockID + "/heartbeat" && sent_type == "application/json"
    invariant [heartbeat-document] sent > 0 ==> sent_body && sent_encoded && is(sent_src, *v1locker.LockClaim) && as(sent_src, *v1locker.LockClaim).SessionID == l.sessionID
    invariant [accepted-heartbeat-extends] sent > 0 && got_ok && got_status == 200 ==> reset_at == sent && reset_to == l.timeout
    invariant !closed(l.heartbeating)
    invariant once(l.doneOnce) || !closed(l.done)
func newLock(resp, url, client, onErr, onRelease) (l)
  property P20
  requires resp != nil && lockSpecOK(resp.Spec) && lockStateOK(resp.State) && resp.Spec.Properties != nil && resp.Spec.Properties.Timeout != nil
  requires client != nil && onRelease != nil
  ensures [lock-of-the-answer] l != nil && isfresh(l) && l.url == url && l.client == client && l.lockID == resp.State.LockID && l.sessionID == resp.State.SessionID && l.timeout == *resp.Spec.Properties.Timeout && l.releaseLockCallback == onRelease
  ensures [ready] l.released != nil && l.doneOnce != nil && l.done != nil && l.done != l.heartbeating && !once(l.doneOnce) && !closed(l.done) && l.heartbeating != nil && !closed(l.heartbeating) && load(l.released) == 0
func *LockClient.ObtainLock(lc, ctx, lockRequest, onHeartbeatError) (res, err)
  property P20
  option unknownfuncs pure
  modifies ghosts
  requires lc.client != nil && lc.locks != nil && ctx != nil && lockRequest != nil && sent == 0 && json_enc
  requires [definition] forall v any {stored(lc.locks, v)} :: stored(lc.locks, v) == (is(v, *lock) && as(v, *lock) != nil)
  ensures [invalid-refused-unsent] !(lockSpecOK(lockRequest.Spec) && lockRequest.State == nil) ==> err != nil && sent == 0 && res == nil
  ensures [documented-request] sent > 0 ==> sent_method == "POST" && sent_url == lc.url + "/v1/locks" && sent_type == "application/json"
  ensures [document-sent] sent > 0 ==> sent_body && sent_encoded && sent_src == box(lockRequest, *v1locker.Lock)
  ensures [success-only-when-documented] err == nil && res != nil && sent > 0 ==> got_ok && got_status == 200 && json_ok && as(res, *lock).lockID == as(json_doc, *v1locker.Lock).State.LockID && as(res, *lock).sessionID == as(json_doc, *v1locker.Lock).State.SessionID
  ensures [nothing-without-request] err == nil && res == nil ==> sent > 0 && !got_ok
  ensures [failure-has-no-lock] err != nil ==> res == nil
  loop 1
    invariant sent >= 0
    invariant sent > 0 ==> sent_method == "POST" && sent_url == lc.url + "/v1/locks" && sent_type == "application/json" && sent_body && sent_encoded && sent_src == box(lockRequest, *v1locker.Lock)
