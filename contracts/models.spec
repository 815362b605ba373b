# Request and response documents: valid exactly when the required parts are there and valid.
package pkg/models/api/common/errors
func *Error.Validate(err) (result)
  property P05
  ensures [exact] (result == nil) == (err.Message != "")
func *ServerError.Validate(err) (result)
  property P05
  ensures [exact] (result == nil) == (err.StatusCode != 0 && err.Message != "")

package pkg/models/api/limiter/v1
import datatypes pkg/models/datatypes

define typedKVs(kv datatypes.KeyValues) bool = validKVs(kv, datatypes.MinDataType, datatypes.MaxWithoutAnyDataType)
define anyKVs(kv datatypes.KeyValues) bool = validKVs(kv, datatypes.MinDataType, datatypes.MaxDataType)
define limitOK(l *int64) bool = l != nil && *l >= 0 - 1

define counterSpecOK(s *CounterSpec) bool = s != nil && s.DBDefinition != nil && typedKVs(s.DBDefinition.KeyValues) && s.Properties != nil && s.Properties.Counters != nil
func *CounterDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == typedKVs(d.KeyValues)
func *CounteProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == (p.Counters != nil)
func *CounterSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == counterSpecOK(s)
func *Counter.ValidateSpecOnly(c) (err)
  property P05
  ensures [exact] (err == nil) == counterSpecOK(c.Spec)
func *Counter.Validate(c) (err)
  property P05
  ensures [exact] (err == nil) == (counterSpecOK(c.Spec) && c.State != nil)
func Counters.Validate(cs) (err)
  property P05
  ensures [exact] (err == nil) == (forall i int :: 0 <= i && i < len(cs) ==> cs[i] != nil && counterSpecOK(cs[i].Spec) && cs[i].State != nil)
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> cs[i] != nil && counterSpecOK(cs[i].Spec) && cs[i].State != nil

define overrideSpecOK(s *OverrideSpec) bool = s != nil && s.DBDefinition != nil && anyKVs(s.DBDefinition.GroupByKeyValues) && s.Properties != nil && limitOK(s.Properties.Limit)
func *OverrideDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == anyKVs(d.GroupByKeyValues)
func *OverrideProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == limitOK(p.Limit)
func *OverrideSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == overrideSpecOK(s)
func *Override.ValidateSpecOnly(o) (err)
  property P05
  ensures [exact] (err == nil) == overrideSpecOK(o.Spec)
func *Override.Validate(o) (err)
  property P05
  ensures [exact] (err == nil) == (overrideSpecOK(o.Spec) && o.State != nil)
define overridesOK(os Overrides) bool = forall i int :: 0 <= i && i < len(os) ==> os[i] != nil && overrideSpecOK(os[i].Spec) && os[i].State != nil
func Overrides.Validate(os) (err)
  property P05
  ensures [exact] (err == nil) == overridesOK(os)
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> os[i] != nil && overrideSpecOK(os[i].Spec) && os[i].State != nil

define ruleSpecOK(s *RuleSpec) bool = s != nil && s.DBDefinition != nil && anyKVs(s.DBDefinition.GroupByKeyValues) && s.Properties != nil && limitOK(s.Properties.Limit)
define ruleOK(r *Rule) bool = ruleSpecOK(r.Spec) && (r.State == nil || overridesOK(r.State.Overrides))
func *RuleDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == anyKVs(d.GroupByKeyValues)
func *RuleProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == limitOK(p.Limit)
func *RuleSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == ruleSpecOK(s)
func *RuleState.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == overridesOK(s.Overrides)
func *Rule.ValidateSpecOnly(r) (err)
  property P05
  ensures [exact] (err == nil) == ruleSpecOK(r.Spec)
func *Rule.Validate(r) (err)
  property P05
  ensures [exact] (err == nil) == ruleOK(r)
func Rules.Validate(rs) (err)
  property P05
  ensures [exact] (err == nil) == (forall i int :: 0 <= i && i < len(rs) ==> rs[i] != nil && ruleOK(rs[i]))
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> rs[i] != nil && ruleOK(rs[i])

package pkg/models/api/locker/v1
import datatypes pkg/models/datatypes

define lockSpecOK(s *LockSpec) bool = s != nil && s.DBDefinition != nil && typedKVs(s.DBDefinition.KeyValues) && (s.Properties == nil || s.Properties.Timeout == nil || *s.Properties.Timeout > 0)
define lockStateOK(s *LockState) bool = s != nil && s.LockID != "" && s.SessionID != "" && s.LocksHeldOrWaiting != 0
func *LockClaim.Validate(c) (err)
  property P05
  ensures [exact] (err == nil) == (c.SessionID != "")
func *LockDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == typedKVs(d.KeyValues)
func *LockProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == (p.Timeout == nil || *p.Timeout > 0)
func *LockSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == lockSpecOK(s)
func *LockState.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == lockStateOK(s)
func *Lock.ValidateSpecOnly(l) (err)
  property P05
  ensures [exact] (err == nil) == (lockSpecOK(l.Spec) && l.State == nil)
func *Lock.Validate(l) (err)
  property P05
  ensures [exact] (err == nil) == (lockSpecOK(l.Spec) && lockStateOK(l.State))
func Locks.Validate(ls) (err)
  property P05
  ensures [exact] (err == nil) == (forall i int :: 0 <= i && i < len(ls) ==> ls[i] != nil && lockSpecOK(ls[i].Spec) && lockStateOK(ls[i].State))
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> ls[i] != nil && lockSpecOK(ls[i].Spec) && lockStateOK(ls[i].State)
func *Lock.SetDefaultProperties(lock, lockProperties)
  property P05
  requires lock.Spec != nil && lockProperties != nil && lockProperties.Timeout != nil
  requires lock.Spec.Properties != lockProperties
  modifies lock.Spec.Properties, lock.Spec.Properties.Timeout
  ensures [timeout-set] lock.Spec.Properties != nil && lock.Spec.Properties.Timeout != nil
  ensures [given-value-kept] old(lock.Spec.Properties != nil && lock.Spec.Properties.Timeout != nil) ==> lock.Spec.Properties == old(lock.Spec.Properties) && lock.Spec.Properties.Timeout == old(lock.Spec.Properties.Timeout)
  ensures [default-used] old(lock.Spec.Properties == nil || lock.Spec.Properties.Timeout == nil) ==> lock.Spec.Properties.Timeout == old(lockProperties.Timeout)

package pkg/models/api/willow/v1
import datatypes pkg/models/datatypes

define queueSpecOK(s *QueueSpec) bool = s != nil && s.DBDefinition != nil && s.DBDefinition.Name != nil && *s.DBDefinition.Name != "" && s.Properties != nil && s.Properties.MaxItems != nil
func *QueueDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == (d.Name != nil && *d.Name != "")
func *QueueProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == (p.MaxItems != nil)
func *QueueSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == queueSpecOK(s)
func *Queue.ValidateSpecOnly(q) (err)
  property P05
  ensures [exact] (err == nil) == (queueSpecOK(q.Spec) && q.State == nil)
func Queue.Validate(q) (err)
  property P05
  ensures [exact] (err == nil) == (queueSpecOK(q.Spec) && q.State != nil)
func Queues.Validate(qs) (err)
  property P05
  ensures [exact] (err == nil) == (forall i int :: 0 <= i && i < len(qs) ==> qs[i] != nil && queueSpecOK(qs[i].Spec) && qs[i].State != nil)
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> qs[i] != nil && queueSpecOK(qs[i].Spec) && qs[i].State != nil

define channelSpecOK(s *ChannelSpec) bool = s != nil && s.DBDefinition != nil && typedKVs(s.DBDefinition.KeyValues)
define channelStateOK(s *ChannelState) bool = s != nil && wrap(s.EnqueuedItems + s.ProcessingItems, int64) != 0
define channelOK(c *Channel) bool = c != nil && channelSpecOK(c.Spec) && channelStateOK(c.State)
func *ChannelDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == typedKVs(d.KeyValues)
func *ChannelSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == channelSpecOK(s)
func *ChannelState.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == channelStateOK(s)
func *Channel.Validate(c) (err)
  property P05
  ensures [exact] (err == nil) == channelOK(c)
func Channels.Validate(cs) (err)
  property P05
  ensures [exact] (err == nil) == (forall i int :: 0 <= i && i < len(cs) ==> channelOK(cs[i]))
  loop 1
    invariant forall i int :: 0 <= i && i < $k ==> channelOK(cs[i])

define itemPropsOK(p *ItemProperties) bool = p != nil && len(p.Data) != 0 && p.Updateable != nil && p.RetryAttempts != nil && p.RetryPosition != nil && (*p.RetryPosition == "front" || *p.RetryPosition == "back") && p.TimeoutDuration != nil && *p.TimeoutDuration > 0
define itemSpecOK(s *ItemSpec) bool = s != nil && s.DBDefinition != nil && typedKVs(s.DBDefinition.KeyValues) && itemPropsOK(s.Properties)
func *ItemDBDefinition.Validate(d) (err)
  property P05
  ensures [exact] (err == nil) == typedKVs(d.KeyValues)
func *ItemProperties.Validate(p) (err)
  property P05
  ensures [exact] (err == nil) == itemPropsOK(p)
func *ItemSpec.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == itemSpecOK(s)
func *ItemState.Validate(s) (err)
  property P05
  ensures [exact] (err == nil) == (s.ID != "")
func Item.ValidateSpecOnly(i) (err)
  property P05
  ensures [exact] (err == nil) == (itemSpecOK(i.Spec) && i.State == nil)
func Item.Validate(i) (err)
  property P05
  ensures [exact] (err == nil) == (itemSpecOK(i.Spec) && i.State != nil && i.State.ID != "")
func ACK.Validate(a) (err)
  property P05
  ensures [exact] (err == nil) == (a.ItemID != "" && typedKVs(a.KeyValues))
func Heartbeat.Validate(h) (err)
  property P05
  ensures [exact] (err == nil) == (h.ItemID != "" && typedKVs(h.KeyValues))
