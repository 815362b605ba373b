# The heartbeat watcher.
package internal/heartbeater
import time time
# what the running watch has done
ghost timeouts int
ghost shutdowns int
ghost started bool
ghost over bool
ghost accepted int
ghost why int
ghost watch *time.Ticker
ghost last_reset int
ghost last_time time.Time
define h_ok(h *heartbeater) bool = h != nil && h.lastHeartbeatLock != nil && h.doneChan != nil && h.started != nil && h.start != nil && h.stopChan != nil && h.heartbeaterChan != nil && h.onTimeout != nil
extern time:Now() (t) for internal/heartbeater
  set last_time = t
extern time:NewTicker(d) (t) for internal/heartbeater
  requires [positive-interval] d > 0
  set watch = t
  ensures t != nil
extern time:*Ticker.Reset(t, d) () for internal/heartbeater
  requires [this-watch] t == watch && d > 0
  set last_reset = accepted
# reasons the watch ends: 1 shutdown, 2 stopped, 3 a full timeout passed since the start or the last heartbeat
extern context:recv Context.Done(ctx) (v, ok) for internal/heartbeater
  set why = 1
extern recv *heartbeater.stopChan(h) (v, ok)
  set why = 2
extern time:recv *Ticker.C(t) (v, ok) for internal/heartbeater
  requires [the-watch-fires] t == watch
  requires [counted-from-the-last-heartbeat] last_reset == accepted
  set why = 3
extern recv *heartbeater.start(h) (v, ok)
  set started = true
extern recv *heartbeater.heartbeaterChan(h) (v, ok)
  requires [watching] started && !over
  set accepted = accepted + 1
extern *heartbeater.onTimeout(h) ()
  requires [only-after-a-full-timeout] why == 3 && started
  requires [only-one-ending] timeouts == 0 && shutdowns == 0 && !over
  set timeouts = timeouts + 1
extern *heartbeater.onShutdown(h) ()
  requires [only-at-shutdown] why == 1 && started
  requires [only-one-ending] timeouts == 0 && shutdowns == 0 && !over
  set shutdowns = shutdowns + 1
extern close *heartbeater.doneChan(h)
  requires [over-once] !over
  set over = true
func *heartbeater.Execute(h, ctx) (err)
  property P18
  option nolocks on
  requires h_ok(h) && h.timeout > 0 && ctx != nil && !closed(h.doneChan) && !over && !started && timeouts == 0 && shutdowns == 0 && accepted == 0 && last_reset == 0 && why == 0
  modifies h.lastHeartbeat, chan(h.doneChan), ghosts
  ensures [over] over && closed(h.doneChan)
  ensures [one-ending] timeouts + shutdowns <= 1
  ensures [shutdown-action] why == 1 ==> timeouts == 0 && (h.onShutdown != nil ==> shutdowns == 1)
  ensures [stop-has-no-action] why == 2 ==> timeouts == 0 && shutdowns == 0
  ensures [timeout-action] why == 3 ==> timeouts == 1 && shutdowns == 0
  ensures [has-a-reason] why == 1 || why == 2 || why == 3
  loop 1
    invariant started && !over && timeouts == 0 && shutdowns == 0 && !closed(h.doneChan)
    invariant [reset] last_reset == accepted
    invariant [noted] *h.lastHeartbeat == last_time
# requests to the watch: true exactly when the watch took them
ghost took int
ghost found_done bool
extern send *heartbeater.heartbeaterChan(h, v) ()
  set took = took + 1
extern send *heartbeater.stopChan(h, v) ()
  set took = took + 1
extern send *heartbeater.start(h, v) ()
  set took = took + 1
extern recv *heartbeater.doneChan(h) (v, ok)
  set found_done = true
func *heartbeater.Heartbeat(h) (taken)
  property P18
  requires h_ok(h) && took == 0 && !found_done
  modifies ghost took, ghost found_done
  ensures [taken-or-over] taken ? took == 1 && !found_done : took == 0 && found_done
func *heartbeater.Stop(h) (taken)
  property P18
  requires h_ok(h) && took == 0 && !found_done
  modifies ghost took, ghost found_done
  ensures [taken-or-over] taken ? took == 1 && !found_done : took == 0 && found_done
func *heartbeater.Start(h) (taken)
  property P18
  requires h_ok(h) && took == 0 && !found_done
  modifies ghost took, ghost found_done, atomic(h.started)
  ensures [only-the-first] load(h.started) != 0 && (old(load(h.started)) != 0 ==> !taken && took == 0)
  ensures [taken-or-over] old(load(h.started)) == 0 ==> (taken ? took == 1 && !found_done : took == 0 && found_done)
func *heartbeater.GetLastHeartbeat(h) (t)
  property P18
  option nolocks on
  requires h_ok(h)
  modifies ghost last_time
  ensures [the-last] old(*h.lastHeartbeat) != zero(time.Time) ==> t == *h.lastHeartbeat
func New(timeout, onShutdown, onTimeout) (h, err)
  property P18
  ensures [needs-a-timeout-action] (err != nil) == (onTimeout == nil) && (h == nil) == (err != nil)
  ensures [as-configured] err == nil ==> h_ok(h) && h.timeout == timeout && h.onTimeout == onTimeout && h.onShutdown == onShutdown && !closed(h.doneChan) && load(h.started) == 0
  ensures [unbuffered] err == nil ==> cap(h.heartbeaterChan) == 0 && cap(h.stopChan) == 0 && cap(h.start) == 0
  ensures [own-channels] err == nil ==> h.heartbeaterChan != h.stopChan && h.stopChan != h.start && h.heartbeaterChan != h.start && h.doneChan != h.stopChan && h.doneChan != h.heartbeaterChan && h.doneChan != h.start
