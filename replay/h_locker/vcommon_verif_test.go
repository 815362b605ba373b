package router

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	"go.uber.org/zap"
)

// what reached the broker
type vcall struct {
	op, name, sub, doc string
}

type vbroker struct {
	calls   []vcall
	answer  *errors.ServerError
	invalid bool // answer with a document that does not validate
}

func (b *vbroker) got(op, name, sub string, doc any) *errors.ServerError {
	d, _ := json.Marshal(doc)
	b.calls = append(b.calls, vcall{op, name, sub, string(d)})
	return b.answer
}

type vwriter struct {
	*httptest.ResponseRecorder
	headers int
	broken  bool
}

func (w *vwriter) WriteHeader(code int) {
	w.headers++
	w.ResponseRecorder.WriteHeader(code)
}
func (w *vwriter) Write(b []byte) (int, error) {
	if w.broken {
		return 0, fmt.Errorf("connection lost")
	}
	return w.ResponseRecorder.Write(b)
}

type vroute struct {
	method, path, op, name, sub string
	good, bad                   []string
	ok                          int
	same                        bool // the document reaches the broker unchanged
}

var vnotJSON = []string{``, `nope`, `{"Spec":`, `[1]`, `"x"`}

func vp[T any](v T) *T { return &v }

func vrun(t *testing.T, b *vbroker, add func(*urlrouter.Router), routes []vroute, after func(r vroute, w *vwriter) string) (n int) {
	mux := urlrouter.New()
	add(mux)
	send := func(r vroute, body string, broken bool) *vwriter {
		n++
		b.calls = nil
		w := &vwriter{ResponseRecorder: httptest.NewRecorder(), broken: broken}
		req := httptest.NewRequest(r.method, "http://x"+r.path, strings.NewReader(body))
		req.Header.Set("Content-Type", "application/json")
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("VERIF-FAIL %s %s body=%s broker-answer=%+v: panic: %v", r.method, r.path, body, b.answer, p)
				}
			}()
			mux.ServeHTTP(w, req)
		}()
		return w
	}
	fail := func(r vroute, body string, w *vwriter, why string) {
		t.Fatalf("VERIF-FAIL %s %s body=%s broker-answer=%+v: %s; status=%d status-writes=%d broker-calls=%+v", r.method, r.path, body, b.answer, why, w.Code, w.headers, b.calls)
	}
	for _, r := range routes {
		b.answer = nil
		if len(r.good) > 0 {
			for _, body := range append(append([]string{}, vnotJSON...), r.bad...) {
				w := send(r, body, false)
				if w.Code != http.StatusBadRequest || w.headers != 1 || len(b.calls) != 0 {
					fail(r, body, w, "a bad request has to be refused once with 400 before any broker is called")
				}
			}
		}
		bodies := r.good
		if len(bodies) == 0 {
			bodies = []string{""}
		}
		for _, body := range bodies {
			for _, ans := range []*errors.ServerError{nil, {Message: "m", StatusCode: 404}, {Message: "m", StatusCode: 409}, {Message: "m", StatusCode: 500}, {Message: "m", StatusCode: 429}} {
				for _, broken := range []bool{false, true} {
					b.answer = ans
					w := send(r, body, broken)
					want := r.ok
					if ans != nil {
						want = ans.StatusCode
						if r.op == "LocksQuery" {
							want = r.ok
						}
						if r.op == "ObtainLock" {
							want = 503
						}
					}
					if w.headers != 1 || w.Code != want {
						fail(r, body, w, fmt.Sprintf("has to be answered once with %d", want))
					}
					main := b.calls[:0:0]
					for _, c := range b.calls {
						if c.op != "free" && c.op != "kept" {
							main = append(main, c)
						}
					}
					if len(main) != 1 || main[0].op != r.op || main[0].name != r.name || main[0].sub != r.sub {
						fail(r, body, w, "has to reach the broker exactly once as "+r.op+" "+r.name+" "+r.sub)
					}
					if r.same && main[0].doc != body {
						fail(r, body, w, "has to reach the broker as sent")
					}
					if why := after(r, w); why != "" {
						fail(r, body, w, why)
					}
				}
			}
		}
	}
	return n
}

var vlog = zap.NewNop()
