# The exclusive locks of the locker service.
package internal/locker/lock_manager
import v1locker pkg/models/api/locker/v1
import errors pkg/models/api/common/errors
import qa pkg/models/api/common/v1/query_associated_action
import datatypes pkg/models/datatypes
import time time
# ---------- one lock ----------
# the history of the lock that Execute serves: who holds it, and the request it is answering
ghost serving bool
ghost held bool
ghost holder string
ghost lease int
ghost in_use bool
ghost fired bool
ghost fires int
ghost gostarts int
ghost pending int
ghost asked *v1locker.LockClaim
ghost counted int
ghost extended bool
ghost stopping bool
ghost tick_on bool
ghost ticks *time.Ticker
# the requests of one caller
ghost answer bool
ghost rel_answer int
ghost found_done bool
ghost lost_ok bool
ghost granted string
ghost grants int
ghost claimed_of *exclusiveLock
ghost claim_taken bool
ghost issued set[string]
ghost timeouts_run int
define xl_ok(x *exclusiveLock) bool = x != nil && x.done != nil && x.blockDone != nil && x.sessionIDLock != nil && x.heartbeat != nil && x.heartbeatResponse != nil && x.release != nil && x.releaseResponse != nil && x.clientLost != nil && x.clientLostResponse != nil && x.claim != nil && x.claimResponse != nil && x.lastHeartbeatLock != nil && x.timedOut != nil && x.lockTimeoutLock != nil && x.clientsWaitingForClaim != nil && x.timeout != nil && x.done != x.clientLost && x.done != x.claim && x.claim != x.clientLost && x.sessionIDLock != x.lockTimeoutLock && x.sessionIDLock != x.lastHeartbeatLock && x.lockTimeoutLock != x.lastHeartbeatLock
extern time:NewTicker(d) (t) for internal/locker
  requires [positive-interval] d > 0 && d == lease
  set ticks = t
  set tick_on = true
  ensures t != nil
extern time:*Ticker.Reset(t, d) () for internal/locker
  requires [this-lease] t == ticks && d == lease && d > 0
  set extended = true
extern time:*Ticker.Stop(t) () for internal/locker
  set tick_on = t == ticks ? false : tick_on
extern time:recv *Ticker.C(t) (v, ok) for internal/locker
  requires [the-lease-of-the-holder] t == ticks && (tick_on ==> held)
  ensures tick_on
  set held = false
  set holder = ""
extern context:recv Context.Done(ctx) (v, ok) for internal/locker
  set stopping = true
# a session is granted
extern send *exclusiveLock.claim(x, v) ()
  option carries *exclusiveLock.processClaim
  requires [no-other-session] serving && !held && !in_use && !fired && pending == 0 && x.sessionID == ""
  set pending = 5
extern recv *exclusiveLock.claim(x) (v, ok)
  option carries *exclusiveLock.processClaim
  requires [one-claim] !claim_taken
  set claim_taken = ok
  set claimed_of = x
extern send *exclusiveLock.claimResponse(x, v) ()
  requires [a-session] x.sessionID != "" && v == x.lockTimeout && v > 0
  set grants = grants + 1
  set granted = x.sessionID
extern recv *exclusiveLock.claimResponse(x) (v, ok)
  requires pending == 5
  modifies x.sessionID, x.lockTimeout, x.lastHeartbeat
  ensures ok && v > 0 && x.lockTimeout == v && x.sessionID != ""
  set held = true
  set in_use = true
  set holder = x.sessionID
  set lease = v
  set pending = 0
# heartbeats
extern send *exclusiveLock.heartbeat(x, c) ()
  requires [one-request] pending == 0 && c != nil && c.SessionID != ""
  set pending = 1
  set asked = c
extern recv *exclusiveLock.heartbeat(x) (c, ok)
  requires [answered-before] serving && pending == 0
  set pending = 1
  set asked = c
  set extended = false
  ensures ok && c != nil && c.SessionID != ""
extern send *exclusiveLock.heartbeatResponse(x, v) ()
  requires [a-heartbeat] serving && pending == 1
  requires [only-the-holder] v == (held && asked.SessionID == holder)
  requires [extends-the-lease] v ==> extended
  set pending = 0
extern recv *exclusiveLock.heartbeatResponse(x) (v, ok)
  requires [asked-first] pending == 1
  set pending = 0
  set answer = v
  ensures ok
# releases
extern send *exclusiveLock.release(x, c) ()
  requires [one-request] pending == 0 && c != nil && c.SessionID != ""
  set pending = 2
  set asked = c
extern recv *exclusiveLock.release(x) (c, ok)
  requires [answered-before] serving && pending == 0
  modifies atomic(x.clientsWaitingForClaim)
  set pending = 2
  set asked = c
  ensures ok && c != nil && c.SessionID != "" && load(x.clientsWaitingForClaim) >= 1
  set counted = load(x.clientsWaitingForClaim)
extern send *exclusiveLock.releaseResponse(x, v) ()
  requires [a-release] serving && pending == 2
  requires [only-the-holder] (v != failedRelease) == (held && asked.SessionID == holder)
  requires [an-answer] v == failedRelease || v == processedRelease || v == processedAndDestroy
  requires [counted-once] load(x.clientsWaitingForClaim) == (v == failedRelease ? counted : counted - 1)
  requires [destroyed-without-waiters] v != failedRelease ==> (v == processedAndDestroy) == (load(x.clientsWaitingForClaim) == 0)
  set pending = 0
  set in_use = in_use && v == failedRelease
  set held = held && v == failedRelease
  set holder = v == failedRelease ? holder : ""
extern recv *exclusiveLock.releaseResponse(x) (v, ok)
  requires [asked-first] pending == 2
  set pending = 0
  set rel_answer = v
  ensures ok && (v == failedRelease || v == processedRelease || v == processedAndDestroy)
# waiting clients that go away
extern send *exclusiveLock.clientLost(x, v) ()
  requires [answered-before] serving && pending == 0
  modifies atomic(x.clientsWaitingForClaim)
  set pending = 3
  ensures load(x.clientsWaitingForClaim) >= (in_use ? 2 : 1)
  set counted = load(x.clientsWaitingForClaim)
extern recv *exclusiveLock.clientLost(x) (v, ok)
  requires pending == 0
  set pending = ok ? 3 : 0
  set lost_ok = ok
extern send *exclusiveLock.clientLostResponse(x, v) ()
  requires [a-lost-client] serving && pending == 3
  requires [counted-once] load(x.clientsWaitingForClaim) == counted - 1
  requires [destroyed-without-waiters] v == (load(x.clientsWaitingForClaim) == 0)
  set pending = 0
extern recv *exclusiveLock.clientLostResponse(x) (v, ok)
  requires [asked-first] pending == 3
  set pending = 0
  set answer = v
  ensures ok
# the end of a lease
extern send *exclusiveLock.blockDone(x, v) ()
  requires [once-a-lease] serving && !fired && in_use && !held
  set fired = true
  set fires = fires + 1
extern recv *exclusiveLock.blockDone(x) (v, ok)
  ensures ok && fired
extern recv *exclusiveLock.timedOut(x) (v, ok)
  requires serving ? pending == 0 : pending == 4
  modifies atomic(x.clientsWaitingForClaim)
  set pending = serving ? 4 : 0
  set answer = v
  ensures ok && (serving ==> fired && load(x.clientsWaitingForClaim) >= 1)
  set counted = load(x.clientsWaitingForClaim)
extern send *exclusiveLock.timedOut(x, v) ()
  requires [answered-before] serving ? pending == 4 : pending == 0
  requires [counted-once] serving ==> load(x.clientsWaitingForClaim) == counted - 1
  requires [destroyed-without-waiters] serving ==> v == (load(x.clientsWaitingForClaim) == 0)
  set pending = serving ? 0 : 4
  set in_use = serving ? false : in_use
  set fired = serving ? false : fired
extern *exclusiveLock.timeout(x) ()
  set timeouts_run = timeouts_run + 1
extern recv *exclusiveLock.done(x) (v, ok)
  set found_done = true
func *exclusiveLock.Execute(x, ctx) (err)
  property P17
  requires xl_ok(x) && ctx != nil && serving && !held && !in_use && !fired && pending == 0 && holder == "" && x.sessionID == "" && x.lockTimeout == 0 && fires == 0 && gostarts == 0 && !stopping && !tick_on
  requires !closed(x.done) && !closed(x.claim) && !closed(x.clientLost)
  modifies x.sessionID, x.lockTimeout, x.lastHeartbeat, chan(x.done), chan(x.claim), chan(x.clientLost), atomic(x.clientsWaitingForClaim), locks, ghosts
  ensures [over] closed(x.done) && closed(x.claim) && closed(x.clientLost)
  ensures [everything-answered] pending == 0
  ensures [ends-for-a-reason] stopping || load(x.clientsWaitingForClaim) == 0
  ensures [each-lease-ends-once] gostarts == fires
  ensures [locks-free] locks_unchanged()
  loop 1
    invariant [free] serving && !held && !in_use && !fired && pending == 0 && x.sessionID == "" && holder == ""
    invariant x.lockTimeout == 0 && gostarts == fires && !closed(x.done) && !closed(x.claim) && !closed(x.clientLost) && locks_unchanged()
  loop 2
    invariant [one-session] serving && in_use && pending == 0 && (held ? x.sessionID == holder && holder != "" && !fired : x.sessionID == "" && holder == "" && fired)
    invariant [lease] held ? lease == x.lockTimeout && lease > 0 : x.lockTimeout == 0 && !tick_on
    invariant gostarts == fires && !closed(x.done) && !closed(x.claim) && !closed(x.clientLost) && locks_unchanged() && (tick_on ==> held)
func go *exclusiveLock.Execute(x *exclusiveLock)
  property P17
  requires xl_ok(x) && timeouts_run == 0
  modifies ghosts
  ensures [timeout-runs-once] timeouts_run == 1
func *exclusiveLock.processClaim(x, d) (sid)
  property P17
  requires xl_ok(x) && d > 0
  modifies x.sessionID, x.lockTimeout, x.lastHeartbeat, locks, ghost grants, ghost granted, ghost issued
  ensures [a-session] sid != "" && sid == x.sessionID && x.lockTimeout == d
  ensures [a-new-session] !(sid in old(issued)) && sid in issued
  ensures [granted-once] grants == old(grants) + 1 && granted == sid
  ensures [locks-free] locks_unchanged()
func newExclusiveLock(timeout) (x)
  property P17
  requires timeout != nil
  ensures [ready] xl_ok(x) && isfresh(x) && x.timeout == timeout && x.sessionID == "" && x.lockTimeout == 0 && load(x.clientsWaitingForClaim) == 0
  ensures [own-answers] x.heartbeatResponse != x.clientLostResponse && x.heartbeatResponse != x.timedOut && x.clientLostResponse != x.timedOut && x.heartbeat != x.release
  ensures [open] !closed(x.done) && !closed(x.claim) && !closed(x.clientLost)
  ensures [unbuffered] cap(x.heartbeat) == 0 && cap(x.heartbeatResponse) == 0 && cap(x.release) == 0 && cap(x.releaseResponse) == 0 && cap(x.clientLost) == 0 && cap(x.clientLostResponse) == 0 && cap(x.claim) == 0 && cap(x.claimResponse) == 0 && cap(x.timedOut) == 0 && cap(x.blockDone) == 1
func *exclusiveLock.GetClaimChannel(x) (c)
  property P17
  requires xl_ok(x)
  modifies atomic(x.clientsWaitingForClaim)
  ensures [the-claims] c == x.claim
  ensures [counted] load(x.clientsWaitingForClaim) == wrap(old(load(x.clientsWaitingForClaim)) + 1, uint64)
define client0() bool = !serving && pending == 0 && !found_done
func *exclusiveLock.Heartbeat(x, claim) (err)
  property P17
  requires xl_ok(x) && client0() && claim != nil && claim.SessionID != ""
  modifies ghost pending, ghost asked, ghost answer, ghost found_done
  ensures [refused-unless-the-holder] err == nil ==> !found_done && answer && asked == claim
  ensures [accepted-when-the-holder] !found_done && answer ==> err == nil
  ensures [sent] !found_done ==> asked == claim
  ensures [conflict] !found_done && !answer ==> err != nil && err.StatusCode == 409 && err.Message != ""
  ensures [shutdown] found_done ==> err == errors.ServerShutdown && answer == old(answer) && asked == old(asked)
  ensures [answered] pending == 0
func *exclusiveLock.ReleaseLock(x, claim) (destroy, err)
  property P17
  requires xl_ok(x) && client0() && claim != nil && claim.SessionID != ""
  modifies ghost pending, ghost asked, ghost rel_answer, ghost found_done
  ensures [refused-unless-the-holder] err == nil ==> !found_done && rel_answer != failedRelease && asked == claim
  ensures [accepted-when-the-holder] !found_done && rel_answer != failedRelease ==> err == nil
  ensures [destroyed-without-waiters] destroy == (!found_done && rel_answer == processedAndDestroy)
  ensures [conflict] !found_done && rel_answer == failedRelease ==> err != nil && err.StatusCode == 409 && err.Message != ""
  ensures [shutdown] found_done ==> err == errors.ServerShutdown && rel_answer == old(rel_answer) && asked == old(asked)
  ensures [answered] pending == 0
func *exclusiveLock.LostClient(x) (gone)
  property P17
  requires xl_ok(x) && client0()
  modifies ghost pending, ghost lost_ok, ghost answer
  ensures [destroyed-without-waiters] gone == (lost_ok && answer)
  ensures [answered] pending == 0
func *exclusiveLock.TimeOut(x) (gone)
  property P17
  requires xl_ok(x) && client0()
  modifies ghost pending, ghost answer, ghost counted, ghost in_use, ghost fired, atomic(x.clientsWaitingForClaim)
  ensures [destroyed-without-waiters] gone == answer
  ensures [answered] pending == 0
func *exclusiveLock.getSessionID(x) (id)
  property P17
  requires xl_ok(x)
  modifies locks
  ensures id == x.sessionID && locks_unchanged()
func *exclusiveLock.getLockTimeout(x) (d)
  property P17
  requires xl_ok(x)
  modifies locks
  ensures d == x.lockTimeout && locks_unchanged()
func *exclusiveLock.getLastHeartbeatTime(x) (t)
  property P17
  requires xl_ok(x)
  modifies locks
  ensures t == *x.lastHeartbeat && locks_unchanged()
# ---------- the locker ----------
define el_ok(e *exclusiveLocker) bool = e != nil && e.exclusiveLocks != nil && e.taskManager != nil
define ours(t any, v any) bool = stored(t, v) == (is(v, *exclusiveLock) && as(v, *exclusiveLock) != nil) && (is(v, *exclusiveLock) && as(v, *exclusiveLock) != nil ==> xl_ok(as(v, *exclusiveLock)))
func *exclusiveLocker.ObtainLock(e, ctx, req) (l)
  property P17
  option inline *exclusiveLock.GetClaimChannel
  requires el_ok(e) && ctx != nil && hasLogger(ctx) && client0() && !stopping && !claim_taken && grants == 0 && ix_ops == 0
  requires [definition] forall v any {stored(e.exclusiveLocks, v)} :: ours(e.exclusiveLocks, v)
  requires [valid] req != nil && lockSpecOK(req.Spec)
  requires [timeout-set] req.Spec.Properties != nil && req.Spec.Properties.Timeout != nil && *req.Spec.Properties.Timeout > 0
  modifies ghosts, all atomics, all exclusiveLock.sessionID, all exclusiveLock.lockTimeout, all exclusiveLock.lastHeartbeat, locks
  ensures [held-only-when-granted] l != nil ==> claim_taken && grants == 1 && l.State.SessionID == granted && l.State.LockID == ix_id && ix_op == "CreateOrFind"
  ensures [a-grant-is-reported] claim_taken ==> l != nil
  ensures [the-requested-keys] ix_ops >= 1 && ix_kvs == req.Spec.DBDefinition.KeyValues
  ensures [as-requested] l != nil ==> l.Spec == req.Spec && heldOK(l)
  ensures [grants-once] grants == (l != nil ? 1 : 0)
  ensures [a-client-that-left-is-counted] stopping && !claim_taken ==> ix_op == "Delete" && ix_removed == (ix_calls == 1 && lost_ok && answer)
  ensures [locks-free] locks_unchanged()
func *exclusiveLocker.Heartbeat(e, ctx, id, claim) (err)
  property P17
  requires el_ok(e) && ctx != nil && hasLogger(ctx) && client0() && !answer && asked == nil
  requires [definition] forall v any {stored(e.exclusiveLocks, v)} :: ours(e.exclusiveLocks, v)
  requires [valid] claim != nil && claim.SessionID != ""
  modifies ghosts
  ensures [only-the-holder] err == nil ==> answer && asked == claim
  ensures [accepted-when-the-holder] answer ==> err == nil
  ensures [a-client-error] srvErr(err)
  ensures [missing-lock] asked == nil && !found_done ==> err != nil && err.StatusCode == 404
  loop 1
    invariant $k == 0
    invariant pending == 0 && !found_done && !answer && asked == nil && !serving
func *exclusiveLocker.Release(e, ctx, id, claim) (err)
  property P17
  requires el_ok(e) && ctx != nil && hasLogger(ctx) && client0() && rel_answer == failedRelease && asked == nil && ix_ops == 0
  requires [definition] forall v any {stored(e.exclusiveLocks, v)} :: ours(e.exclusiveLocks, v)
  requires [valid] claim != nil && claim.SessionID != ""
  modifies ghosts
  ensures [only-the-holder] err == nil ==> rel_answer != failedRelease && asked == claim
  ensures [accepted-when-the-holder] rel_answer != failedRelease ==> err == nil
  ensures [a-client-error] srvErr(err)
  ensures [missing-lock] ix_calls == 0 ==> err != nil && err.StatusCode == 404
  ensures [the-lock-asked-for] ix_ops == 1 && ix_op == "DeleteByAssociatedID" && ix_id == id
  ensures [removed-without-waiters] ix_removed == (rel_answer == processedAndDestroy)
func *exclusiveLocker.timeout(e, logger, kvs) ()
  property P17
  requires el_ok(e) && logger != nil && client0() && ix_ops == 0
  requires [definition] forall v any {stored(e.exclusiveLocks, v)} :: ours(e.exclusiveLocks, v)
  modifies ghosts, all atomics
  ensures [the-lock-timed-out] ix_ops == 1 && ix_op == "Delete" && ix_kvs == kvs
  ensures [removed-without-waiters] ix_removed == (ix_calls == 1 && answer)
func *exclusiveLocker.LocksQuery(e, ctx, query) (locks)
  property P17
  requires el_ok(e) && ctx != nil && hasLogger(ctx)
  requires [definition] forall v any {stored(e.exclusiveLocks, v)} :: ours(e.exclusiveLocks, v)
  requires [valid] query != nil && qvalid(query)
  modifies ghosts, locks
  loop 1
    local locks v1locker.Locks
    invariant [shaped] forall i int {locks[i]} :: 0 <= i && i < len(locks) ==> locks[i] != nil && locks[i].Spec != nil && locks[i].State != nil && locks[i].State.LockID != ""
  ensures [shaped] forall i int :: 0 <= i && i < len(locks) ==> locks[i] != nil && locks[i].Spec != nil && locks[i].State != nil && locks[i].State.LockID != ""
  ensures [locks-free] locks_unchanged()
package internal/idgenerator
declare ksuidText(k any) string
extern github.com/segmentio/ksuid:KSUID.String(k) (s)
  set issued = add(issued, s)
  ensures s != "" && !(s in old(issued))
