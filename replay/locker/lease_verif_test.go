package lockmanager

import (
	"context"
	"testing"
	"time"

	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

// a session whose lease ended is refused, also before the locker has processed the timeout
func TestVerifP17Expired(t *testing.T) {
	for _, release := range []bool{false, true} {
		var l *exclusiveLock
		expired, goOn, gone := make(chan struct{}), make(chan struct{}), make(chan struct{})
		l = newExclusiveLock(func() {
			close(expired)
			<-goOn
			l.TimeOut()
			close(gone)
		})
		over := make(chan struct{})
		go func() {
			defer close(over)
			defer func() {
				if p := recover(); p != nil {
					t.Errorf("VERIF-FAIL panic in the lock after its lease ended: %v", p)
				}
			}()
			l.Execute(context.Background())
		}()
		claim := <-l.GetClaimChannel()
		sid := claim(15 * time.Millisecond)
		<-expired
		ans := make(chan bool, 1)
		go func() {
			if release {
				_, err := l.ReleaseLock(&v1locker.LockClaim{SessionID: sid})
				ans <- err == nil
			} else {
				ans <- l.Heartbeat(&v1locker.LockClaim{SessionID: sid}) == nil
			}
		}()
		select {
		case served := <-ans:
			if served {
				t.Errorf("VERIF-FAIL the session %s was served (release %v) after its lease ended and before the timeout was processed", sid, release)
			}
		case <-time.After(5 * time.Second):
			t.Errorf("VERIF-FAIL a request (release %v) made after the lease ended was never answered", release)
			return
		}
		close(goOn)
		select {
		case <-gone:
		case <-time.After(5 * time.Second):
			t.Errorf("VERIF-FAIL the timeout of the lock was never processed")
			return
		}
		<-over
	}
	t.Logf("VERIF-CASES ended-leases 2")
}
