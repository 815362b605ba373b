# HTTP handlers: what is answered, and what reaches the broker.
package pkg/models/api
ghost http_writes int
ghost http_status int
ghost http_failed bool
ghost json_ok bool
ghost json_doc any
ghost json_enc bool
ghost fwd int
ghost fwd_op string
ghost fwd_doc any
ghost fwd_name string
ghost fwd_sub string
ghost fwd_status int
ghost fncalls smap[int]int

# net/http: the first status wins; writing a body without a status sends 200
extern net/http:ResponseWriter.WriteHeader(w, code)
  requires [a-valid-status] 100 <= code && code <= 999
  set http_status = code when http_writes == 0
  set http_writes = http_writes + 1
extern net/http:ResponseWriter.Write(w, data) (n, err)
  set http_status = 200 when http_writes == 0
  set http_writes = http_writes == 0 ? 1 : http_writes
  set http_failed = http_failed || err != nil
declare reqCtx(r int) any
extern net/http:*Request.Context(r) (ctx)
  ensures ctx == reqCtx(r) && ctx != nil
extern github.com/DanLavine/urlrouter:GetNamedParamters(ctx) (m)
  ensures m == urlParams(ctx)
declare urlParams(ctx any) map[string]string

define param(r int, k string) string = k in urlParams(reqCtx(r)) ? urlParams(reqCtx(r))[k] : ""
extern github.com/DanLavine/contextops:MergeDone(c, others) (ctx, cancel)
  ensures ctx != nil && cancel != nil
# the documented answers
define errOK(status int, msg string) bool = 100 <= status && status <= 999 && msg != ""
define fresh0() bool = http_writes == 0 && fwd == 0 && json_enc && !http_failed
define badRequest() bool = http_writes == 1 && fwd == 0 && (json_enc ==> http_status == 400)
define forwarded(op string) bool = fwd == 1 && fwd_op == op
define brokerDecides(ok int) bool = http_writes == 1 && (json_enc ==> http_status == (fwd_status == 0 ? ok : fwd_status))

package internal/middleware
import clients pkg/clients
import encoding pkg/encoding
declare hasLogger(ctx any) bool
extern context:Context.Value(c, key) (v)
  ensures key == box(clients.TraceID, clients.parentTrackerID) ==> v == nil || is(v, string)
  ensures key == box(encoding.EncoderType, encoding.encoderType) ==> v == nil || is(v, string) && as(v, string) != ""
  ensures key == box(LoggerCtxKey, requestLogger) && hasLogger(c) ==> is(v, *zap.Logger) && as(v, *zap.Logger) != nil
extern context:WithValue(parent, key, val) (c)
  ensures hasLogger(c) == (key == box(LoggerCtxKey, requestLogger) ? (is(val, *zap.Logger) && as(val, *zap.Logger) != nil) : hasLogger(parent))
  ensures c != nil
import zap go.uber.org/zap
func GetNamedMiddlewareLogger(ctx, name) (c, l)
  property P19
  requires ctx != nil && hasLogger(ctx)
  ensures c != nil && hasLogger(c) && l != nil

# ---------- limiter ----------
package internal/limiter/rules
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
define srvErr(e *errors.ServerError) bool = e == nil || errOK(e.StatusCode, e.Message)
define stOf(e *errors.ServerError) int = e == nil ? 0 : e.StatusCode
define rulesOK(rs v1limiter.Rules) bool = forall i int :: 0 <= i && i < len(rs) ==> rs[i] != nil && ruleOK(rs[i])

func RuleClient.CreateRule(c, ctx, rule) (id, err)
  requires [valid] rule != nil && ruleSpecOK(rule.Spec)
  set fwd = fwd + 1
  set fwd_op = "CreateRule"
  set fwd_doc = box(rule, *v1limiter.Rule)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func RuleClient.UpdateRule(c, ctx, ruleID, update) (err)
  requires [valid] update != nil && limitOK(update.Limit)
  set fwd = fwd + 1
  set fwd_op = "UpdateRule"
  set fwd_name = ruleID
  set fwd_doc = box(update, *v1limiter.RuleProperties)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func RuleClient.QueryRules(c, ctx, query) (rules, err)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "QueryRules"
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> rulesOK(rules))
func RuleClient.MatchRules(c, ctx, match) (rules, err)
  requires [valid] match != nil && matchOK(match)
  set fwd = fwd + 1
  set fwd_op = "MatchRules"
  set fwd_doc = box(match, *qm.MatchActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> rulesOK(rules))
func RuleClient.GetRule(c, ctx, ruleID) (rule, err)
  set fwd = fwd + 1
  set fwd_op = "GetRule"
  set fwd_name = ruleID
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> rule != nil && ruleOK(rule))
func RuleClient.DeleteRule(c, ctx, ruleID) (err)
  set fwd = fwd + 1
  set fwd_op = "DeleteRule"
  set fwd_name = ruleID
  set fwd_status = stOf(err)
  ensures srvErr(err)
func RuleClient.CreateOverride(c, ctx, ruleID, override) (id, err)
  requires [valid] override != nil && overrideSpecOK(override.Spec)
  set fwd = fwd + 1
  set fwd_op = "CreateOverride"
  set fwd_name = ruleID
  set fwd_doc = box(override, *v1limiter.Override)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func RuleClient.UpdateOverride(c, ctx, ruleID, overrideName, override) (err)
  requires [valid] override != nil && limitOK(override.Limit)
  set fwd = fwd + 1
  set fwd_op = "UpdateOverride"
  set fwd_name = ruleID
  set fwd_sub = overrideName
  set fwd_doc = box(override, *v1limiter.OverrideProperties)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func RuleClient.QueryOverrides(c, ctx, ruleID, query) (overrides, err)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "QueryOverrides"
  set fwd_name = ruleID
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> overridesOK(overrides))
func RuleClient.MatchOverrides(c, ctx, ruleID, match) (overrides, err)
  requires [valid] match != nil && matchOK(match)
  set fwd = fwd + 1
  set fwd_op = "MatchOverrides"
  set fwd_name = ruleID
  set fwd_doc = box(match, *qm.MatchActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> overridesOK(overrides))
func RuleClient.GetOverride(c, ctx, ruleID, overrideName) (override, err)
  set fwd = fwd + 1
  set fwd_op = "GetOverride"
  set fwd_name = ruleID
  set fwd_sub = overrideName
  set fwd_status = err == nil && override == nil ? 404 : stOf(err)
  ensures srvErr(err) && (err == nil && override != nil ==> overrideSpecOK(override.Spec) && override.State != nil)
func RuleClient.DeleteOverride(c, ctx, ruleID, overrideName) (err)
  set fwd = fwd + 1
  set fwd_op = "DeleteOverride"
  set fwd_name = ruleID
  set fwd_sub = overrideName
  set fwd_status = stOf(err)
  ensures srvErr(err)
define matchOK(m *qm.MatchActionQuery) bool = len(m.KeyValues) != 0 && (forall k string :: k in m.KeyValues ==> mvValid(m.KeyValues[k])) &&
  (m.MaxNumberOfPermutationKeyValues == nil || *m.MaxNumberOfPermutationKeyValues == -1 || *m.MaxNumberOfPermutationKeyValues >= (m.MinNumberOfPermutationKeyValues == nil ? 0 : *m.MinNumberOfPermutationKeyValues))

package internal/limiter/counters
import v1limiter pkg/models/api/limiter/v1
import qa pkg/models/api/common/v1/query_associated_action
func CounterClient.IncrementCounters(c, ctx, lockerClient, counter) (err)
  requires [valid] counter != nil && counterSpecOK(counter.Spec) && *counter.Spec.Properties.Counters > 0
  set fwd = fwd + 1
  set fwd_op = "IncrementCounters"
  set fwd_doc = box(counter, *v1limiter.Counter)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func CounterClient.DecrementCounters(c, ctx, counter) (err)
  requires [valid] counter != nil && counterSpecOK(counter.Spec) && *counter.Spec.Properties.Counters <= 0
  set fwd = fwd + 1
  set fwd_op = "DecrementCounters"
  set fwd_doc = box(counter, *v1limiter.Counter)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func CounterClient.SetCounter(c, ctx, counter) (err)
  requires [valid] counter != nil && counterSpecOK(counter.Spec)
  set fwd = fwd + 1
  set fwd_op = "SetCounter"
  set fwd_doc = box(counter, *v1limiter.Counter)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func CounterClient.QueryCounters(c, ctx, query) (counters, err)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "QueryCounters"
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> (forall i int :: 0 <= i && i < len(counters) ==> counters[i] != nil && counterSpecOK(counters[i].Spec) && counters[i].State != nil))

package internal/limiter/api/v1/handlers
import v1limiter pkg/models/api/limiter/v1
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
import qm pkg/models/api/common/v1/query_match_action
import http net/http
define served(r *http.Request, w any, h *groupRuleHandler) bool = r != nil && w != nil && hasLogger(reqCtx(r)) && h.ruleClient != nil && h.counterClient != nil && h.lockerClientConfig != nil && fresh0()
func *groupRuleHandler.CreateRule(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && ruleSpecOK(as(json_doc, *v1limiter.Rule).Spec)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && ruleSpecOK(as(json_doc, *v1limiter.Rule).Spec) ==> forwarded("CreateRule") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(201)
func *groupRuleHandler.QueryRules(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("QueryRules") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.MatchRules(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && matchOK(as(json_doc, *qm.MatchActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && matchOK(as(json_doc, *qm.MatchActionQuery)) ==> forwarded("MatchRules") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.GetRule(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [forwarded-once] forwarded("GetRule")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.UpdateRule(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && limitOK(as(json_doc, *v1limiter.RuleProperties).Limit)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && limitOK(as(json_doc, *v1limiter.RuleProperties).Limit) ==> forwarded("UpdateRule") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.DeleteRule(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [forwarded-once] forwarded("DeleteRule")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(204)
func *groupRuleHandler.CreateOverride(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && overrideSpecOK(as(json_doc, *v1limiter.Override).Spec) ==> forwarded("CreateOverride") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(201)
func *groupRuleHandler.QueryOverrides(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("QueryOverrides") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.MatchOverrides(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && matchOK(as(json_doc, *qm.MatchActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && matchOK(as(json_doc, *qm.MatchActionQuery)) ==> forwarded("MatchOverrides") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.GetOverride(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [forwarded-once] forwarded("GetOverride")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id") && fwd_sub == param(r, "override_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.UpdateOverride(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && limitOK(as(json_doc, *v1limiter.OverrideProperties).Limit)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && limitOK(as(json_doc, *v1limiter.OverrideProperties).Limit) ==> forwarded("UpdateOverride") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id") && fwd_sub == param(r, "override_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.DeleteOverride(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [forwarded-once] forwarded("DeleteOverride")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "rule_id") && fwd_sub == param(r, "override_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(204)
func *groupRuleHandler.SetCounters(h, w, r)
  property P19
  modifies ghosts
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && counterSpecOK(as(json_doc, *v1limiter.Counter).Spec)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && counterSpecOK(as(json_doc, *v1limiter.Counter).Spec) ==> forwarded("SetCounter") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func *groupRuleHandler.QueryCounters(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  requires served(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("QueryCounters") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
define goodCounter() bool = json_ok && counterSpecOK(as(json_doc, *v1limiter.Counter).Spec)
func *groupRuleHandler.UpsertCounters(h, w, r)
  property P19
  modifies ghosts
  option unknownfuncs pure
  modifies h.lockerClientConfig.cert, h.lockerClientConfig.rootCAs
  requires served(r, w, h)
  requires errors.InternalServerError != nil && errors.InternalServerError.StatusCode == 500 && errors.InternalServerError.Message != ""
  ensures [bad-request-refused] !goodCounter() ==> badRequest()
  ensures [valid-request-forwarded-once] goodCounter() ==> (forwarded(*as(json_doc, *v1limiter.Counter).Spec.Properties.Counters > 0 ? "IncrementCounters" : "DecrementCounters") && fwd_doc == json_doc) || (fwd == 0 && *as(json_doc, *v1limiter.Counter).Spec.Properties.Counters > 0 && http_status == 500)
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)

# ---------- locker ----------
package internal/locker/lock_manager
import v1locker pkg/models/api/locker/v1
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
ghost released int
ghost released_id string
ghost released_doc any
define srvErr(e *errors.ServerError) bool = e == nil || errOK(e.StatusCode, e.Message)
define stOf(e *errors.ServerError) int = e == nil ? 0 : e.StatusCode
define heldOK(l *v1locker.Lock) bool = lockSpecOK(l.Spec) && l.Spec.Properties != nil && l.Spec.Properties.Timeout != nil && lockStateOK(l.State)
func ExcluiveLocker.ObtainLock(c, ctx, createRequest) (lock)
  requires [valid] createRequest != nil && lockSpecOK(createRequest.Spec)
  requires [timeout-set] createRequest.Spec.Properties != nil && createRequest.Spec.Properties.Timeout != nil && *createRequest.Spec.Properties.Timeout > 0
  set fwd = fwd + 1
  set fwd_op = "ObtainLock"
  set fwd_doc = box(createRequest, *v1locker.Lock)
  set fwd_status = lock == nil ? 503 : 0
  ensures lock != nil ==> heldOK(lock)
func ExcluiveLocker.Heartbeat(c, ctx, lockID, claim) (err)
  requires [valid] claim != nil && claim.SessionID != ""
  set fwd = fwd + 1
  set fwd_op = "Heartbeat"
  set fwd_name = lockID
  set fwd_doc = box(claim, *v1locker.LockClaim)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func ExcluiveLocker.LocksQuery(c, ctx, query) (locks)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "LocksQuery"
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = 0
  ensures forall i int :: 0 <= i && i < len(locks) ==> locks[i] != nil && lockSpecOK(locks[i].Spec) && lockStateOK(locks[i].State)
func ExcluiveLocker.Release(c, ctx, lockID, claim) (err)
  requires [valid] claim != nil && claim.SessionID != ""
  set released = released + 1
  set released_id = lockID
  set released_doc = box(claim, *v1locker.LockClaim)
  set fwd_status = fwd == 0 ? stOf(err) : fwd_status
  ensures srvErr(err)

package internal/locker/api/v1/handlers
import v1locker pkg/models/api/locker/v1
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
import http net/http
define servedL(r *http.Request, w any, h *lockerHandler) bool = r != nil && w != nil && hasLogger(reqCtx(r)) && h.generalLocker != nil && h.cfg != nil && h.cfg.LockDefaultTimeout != nil && *h.cfg.LockDefaultTimeout > 0 && fresh0() && released == 0
define mustRelease() bool = fwd == 1 && fwd_status == 0 && (http_failed || !json_enc)
func *lockerHandler.Create(h, w, r)
  property P19
  modifies ghosts
  modifies all v1locker.LockSpec.Properties, all v1locker.LockProperties.Timeout
  requires servedL(r, w, h)
  ensures [bad-request-refused] !(json_ok && lockSpecOK(as(json_doc, *v1locker.Lock).Spec) && as(json_doc, *v1locker.Lock).State == nil) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && lockSpecOK(as(json_doc, *v1locker.Lock).Spec) && as(json_doc, *v1locker.Lock).State == nil ==> forwarded("ObtainLock") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
  ensures [released-when-unanswered] released == (mustRelease() ? 1 : 0)
func *lockerHandler.Heartbeat(h, w, r)
  property P19
  modifies ghosts
  requires servedL(r, w, h)
  ensures [bad-request-refused] !(json_ok && as(json_doc, *v1locker.LockClaim).SessionID != "") ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && as(json_doc, *v1locker.LockClaim).SessionID != "" ==> forwarded("Heartbeat") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "lock_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
  ensures [nothing-released] released == 0
func *lockerHandler.Query(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  requires servedL(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("LocksQuery") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
  ensures [nothing-released] released == 0
func *lockerHandler.Release(h, w, r)
  property P19
  modifies ghosts
  requires servedL(r, w, h)
  ensures [bad-request-refused] !(json_ok && as(json_doc, *v1locker.LockClaim).SessionID != "") ==> badRequest() && released == 0
  ensures [valid-request-forwarded-once] json_ok && as(json_doc, *v1locker.LockClaim).SessionID != "" ==> fwd == 0 && released == 1 && released_doc == json_doc
  ensures [named-part] released == 1 ==> released_id == param(r, "lock_id")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] released == 1 ==> brokerDecides(204)
# ---------- willow ----------
package internal/willow/brokers/queues
import v1willow pkg/models/api/willow/v1
import errors pkg/models/api/common/errors
import datatypes pkg/models/datatypes
import qa pkg/models/api/common/v1/query_associated_action
define srvErr(e *errors.ServerError) bool = e == nil || errOK(e.StatusCode, e.Message)
define stOf(e *errors.ServerError) int = e == nil ? 0 : e.StatusCode
ghost cb_success int
ghost cb_failure int
func QueuesClient.CreateQueue(c, ctx, queue) (err)
  requires [valid] queue != nil && queueSpecOK(queue.Spec)
  set fwd = fwd + 1
  set fwd_op = "CreateQueue"
  set fwd_doc = box(queue, *v1willow.Queue)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.ListQueues(c, ctx) (queues, err)
  set fwd = fwd + 1
  set fwd_op = "ListQueues"
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> (forall i int :: 0 <= i && i < len(queues) ==> queues[i] != nil && queueSpecOK(queues[i].Spec) && queues[i].State != nil))
func QueuesClient.GetQueue(c, ctx, queueName) (queue, err)
  set fwd = fwd + 1
  set fwd_op = "GetQueue"
  set fwd_name = queueName
  set fwd_status = err == nil && queue == nil ? 404 : stOf(err)
  ensures srvErr(err) && (err == nil && queue != nil ==> queueSpecOK(queue.Spec) && queue.State != nil)
func QueuesClient.UpdateQueue(c, ctx, queueName, update) (err)
  requires [valid] update != nil && update.MaxItems != nil
  set fwd = fwd + 1
  set fwd_op = "UpdateQueue"
  set fwd_name = queueName
  set fwd_doc = box(update, *v1willow.QueueProperties)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.DeleteQueue(c, ctx, queueName) (err)
  set fwd = fwd + 1
  set fwd_op = "DeleteQueue"
  set fwd_name = queueName
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.QueryChannels(c, ctx, queueName, query) (channels, err)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "QueryChannels"
  set fwd_name = queueName
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = stOf(err)
  ensures srvErr(err) && (err == nil ==> (forall i int :: 0 <= i && i < len(channels) ==> channelOK(channels[i])))
func QueuesClient.DeleteChannel(c, ctx, queueName, kvs) (err)
  requires [valid] typedKVs(kvs)
  set fwd = fwd + 1
  set fwd_op = "DeleteChannel"
  set fwd_name = queueName
  set fwd_doc = box(kvs, datatypes.KeyValues)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.Enqueue(c, ctx, queueName, item) (err)
  requires [valid] item != nil && itemSpecOK(item.Spec)
  set fwd = fwd + 1
  set fwd_op = "Enqueue"
  set fwd_name = queueName
  set fwd_doc = box(item, *v1willow.Item)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.Dequeue(c, ctx, queueName, query) (item, onSuccess, onFailure, err)
  requires [valid] query != nil && qvalid(query)
  set fwd = fwd + 1
  set fwd_op = "Dequeue"
  set fwd_name = queueName
  set fwd_doc = box(query, *qa.AssociatedActionQuery)
  set fwd_status = stOf(err)
  set cb_success = onSuccess
  set cb_failure = onFailure
  ensures srvErr(err) && (err == nil ==> item != nil && itemSpecOK(item.Spec) && item.State != nil && item.State.ID != "" && onSuccess != nil && onFailure != nil && onSuccess != onFailure)
func QueuesClient.Ack(c, ctx, queueName, ack) (err)
  requires [valid] ack != nil && ack.ItemID != "" && typedKVs(ack.KeyValues)
  set fwd = fwd + 1
  set fwd_op = "Ack"
  set fwd_name = queueName
  set fwd_doc = box(ack, *v1willow.ACK)
  set fwd_status = stOf(err)
  ensures srvErr(err)
func QueuesClient.Heartbeat(c, ctx, queueName, hb) (err)
  requires [valid] hb != nil && hb.ItemID != "" && typedKVs(hb.KeyValues)
  set fwd = fwd + 1
  set fwd_op = "Heartbeat"
  set fwd_name = queueName
  set fwd_doc = box(hb, *v1willow.Heartbeat)
  set fwd_status = stOf(err)
  ensures srvErr(err)

package internal/willow/api/v1/handlers
import v1willow pkg/models/api/willow/v1
import datatypes pkg/models/datatypes
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
import http net/http
define servedQ(r *http.Request, w any, h queueHandler) bool = r != nil && w != nil && hasLogger(reqCtx(r)) && h.queueClient != nil && fresh0()
func queueHandler.Create(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && queueSpecOK(as(json_doc, *v1willow.Queue).Spec) && as(json_doc, *v1willow.Queue).State == nil) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && queueSpecOK(as(json_doc, *v1willow.Queue).Spec) && as(json_doc, *v1willow.Queue).State == nil ==> forwarded("CreateQueue") && fwd_doc == json_doc
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(201)
func queueHandler.List(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [forwarded-once] forwarded("ListQueues")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func queueHandler.Get(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [forwarded-once] forwarded("GetQueue")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func queueHandler.Update(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && as(json_doc, *v1willow.QueueProperties).MaxItems != nil) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && as(json_doc, *v1willow.QueueProperties).MaxItems != nil ==> forwarded("UpdateQueue") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func queueHandler.Delete(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [forwarded-once] forwarded("DeleteQueue")
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(204)
func queueHandler.ChannelQuery(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("QueryChannels") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func queueHandler.ChannelDelete(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && typedKVs(*as(json_doc, *datatypes.KeyValues))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && typedKVs(*as(json_doc, *datatypes.KeyValues)) ==> forwarded("DeleteChannel") && fwd_doc == box(*as(json_doc, *datatypes.KeyValues), datatypes.KeyValues)
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(204)
func queueHandler.ChannelEnqueue(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && itemSpecOK(as(json_doc, *v1willow.Item).Spec) && as(json_doc, *v1willow.Item).State == nil) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && itemSpecOK(as(json_doc, *v1willow.Item).Spec) && as(json_doc, *v1willow.Item).State == nil ==> forwarded("Enqueue") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(201)
func queueHandler.ChannelDequeue(h, w, r)
  property P19
  modifies ghosts
  option definitions assume
  option unknownfuncs pure
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery))) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && qvalid(as(json_doc, *qa.AssociatedActionQuery)) ==> forwarded("Dequeue") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  requires forall f int :: fncalls[f] == 0
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
  ensures [one-callback] fwd == 1 && fwd_status == 0 ==> fncalls[cb_success] + fncalls[cb_failure] == 1
  ensures [item-kept-only-when-answered] fwd == 1 && fwd_status == 0 ==> fncalls[cb_success] == (json_enc && !http_failed ? 1 : 0)
func queueHandler.ItemACK(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && as(json_doc, *v1willow.ACK).ItemID != "" && typedKVs(as(json_doc, *v1willow.ACK).KeyValues)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && as(json_doc, *v1willow.ACK).ItemID != "" && typedKVs(as(json_doc, *v1willow.ACK).KeyValues) ==> forwarded("Ack") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
func queueHandler.ItemHeartbeat(h, w, r)
  property P19
  modifies ghosts
  requires servedQ(r, w, h)
  ensures [bad-request-refused] !(json_ok && as(json_doc, *v1willow.Heartbeat).ItemID != "" && typedKVs(as(json_doc, *v1willow.Heartbeat).KeyValues)) ==> badRequest()
  ensures [valid-request-forwarded-once] json_ok && as(json_doc, *v1willow.Heartbeat).ItemID != "" && typedKVs(as(json_doc, *v1willow.Heartbeat).KeyValues) ==> forwarded("Heartbeat") && fwd_doc == json_doc
  ensures [named-part] fwd == 1 ==> fwd_name == param(r, "queue_name")
  ensures [answered-once] http_writes == 1
  ensures [broker-decides-status] fwd == 1 ==> brokerDecides(200)
