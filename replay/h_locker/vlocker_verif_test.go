package router

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type vl struct{ *vbroker }

var vtimeout time.Duration

func vlock() *v1locker.Lock {
	return &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.Int(1)}}, Properties: &v1locker.LockProperties{Timeout: vp(time.Second)}}, State: &v1locker.LockState{LockID: "id", SessionID: "s", LocksHeldOrWaiting: 1}}
}
func (b vl) ObtainLock(ctx context.Context, l *v1locker.Lock) *v1locker.Lock {
	vtimeout = 0
	if l.Spec.Properties != nil && l.Spec.Properties.Timeout != nil {
		vtimeout = *l.Spec.Properties.Timeout
	}
	if b.got("ObtainLock", "", "", l) != nil {
		return nil
	}
	return vlock()
}
func (b vl) Heartbeat(ctx context.Context, id string, c *v1locker.LockClaim) *errors.ServerError {
	return b.got("Heartbeat", id, "", c)
}
func (b vl) LocksQuery(ctx context.Context, q *queryassociatedaction.AssociatedActionQuery) v1locker.Locks {
	b.got("LocksQuery", "", "", q)
	return v1locker.Locks{vlock()}
}
func (b vl) Release(ctx context.Context, id string, c *v1locker.LockClaim) *errors.ServerError {
	if len(b.calls) == 1 {
		b.got("free", id, c.SessionID, nil)
		return nil
	}
	return b.got("Release", id, "", c)
}

func TestVerifP19Locker(t *testing.T) {
	b := &vbroker{}
	lock := func(p string) string {
		return `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":8,"Data":"1"}}}` + p + `}}`
	}
	claims := []string{`{}`, `null`, `{"SessionID":""}`}
	n := vrun(t, b, func(m *urlrouter.Router) {
		AddV1LockerRoutes(vlog, m, handlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: vp(7 * time.Second)}, vl{b}))
	}, []vroute{
		{method: "POST", path: "/v1/locks", op: "ObtainLock", ok: 200, good: []string{lock(""), lock(`,"Properties":{}`), lock(`,"Properties":{"Timeout":9}`)},
			bad: []string{`{}`, `null`, `{"Spec":{}}`, `{"Spec":{"DBDefinition":{}}}`, lock(`,"Properties":{"Timeout":0}`), lock(`,"Properties":{"Timeout":-1}`)}},
		{method: "GET", path: "/v1/locks", op: "LocksQuery", ok: 200, good: []string{`{}`}, bad: []string{`{"Selection":{"KeyValues":{"a":{"Value":{"Type":8,"Data":"1"},"Comparison":"~","TypeRestrictions":{"MinDataType":8,"MaxDataType":8}}}}}`}},
		{method: "DELETE", path: "/v1/locks/l1", op: "Release", name: "l1", ok: 204, same: true, good: []string{`{"SessionID":"s"}`}, bad: claims},
		{method: "POST", path: "/v1/locks/l1/heartbeat", op: "Heartbeat", name: "l1", ok: 200, same: true, good: []string{`{"SessionID":"s"}`}, bad: claims},
	}, func(r vroute, w *vwriter) string {
		if r.op == "ObtainLock" {
			if vtimeout != 9 && vtimeout != 7*time.Second {
				return fmt.Sprintf("the lock has to be asked for with the requested or the default timeout, not %s", vtimeout)
			}
			freed := len(b.calls) == 2 && b.calls[1] == vcall{"free", "id", "s", "null"}
			if freed != (w.broken && b.answer == nil) || len(b.calls) > 2 {
				return "a lock has to be released exactly when its holder cannot be told"
			}
		}
		return ""
	})
	fmt.Println("VERIF-CASES handler-requests", n)
}
