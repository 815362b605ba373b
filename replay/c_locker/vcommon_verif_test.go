package lockerclient

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"sync"
	"testing"
)

// vrt answers requests without a network and records them.
type vrt struct {
	mu      sync.Mutex
	status  int
	body    string
	broken  bool
	hook    func(*http.Request)
	method  []string
	path    []string
	ctype   []string
	doc     []string
	replies int
}

type vslow struct{}

func (vslow) Read([]byte) (int, error) { return 0, fmt.Errorf("connection lost") }

func (r *vrt) RoundTrip(req *http.Request) (*http.Response, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	b := []byte{}
	if req.Body != nil {
		b, _ = io.ReadAll(req.Body)
	}
	r.method = append(r.method, req.Method)
	r.path = append(r.path, req.URL.Path)
	r.ctype = append(r.ctype, req.Header.Get("Content-Type"))
	r.doc = append(r.doc, string(b))
	if r.hook != nil {
		r.hook(req)
	}
	if r.status == 0 {
		return nil, fmt.Errorf("no service")
	}
	h := http.Header{}
	h.Set("Content-Type", "application/json")
	resp := &http.Response{StatusCode: r.status, Header: h, Body: io.NopCloser(bytes.NewBufferString(r.body)), Request: req}
	if r.broken {
		resp.Body = io.NopCloser(vslow{})
	}
	return resp, nil
}

type vop struct {
	name, method, path string
	ok                 int
	good, bad          []any // documents passed in; nil list: none is sent
	answers            []any // answers that validate; nil list: the answer carries no document
	badAnswers         []string
	call               func(doc any) (any, error)
}

var vstatuses = []int{0, 100, 200, 201, 202, 204, 206, 301, 400, 401, 403, 404, 405, 408, 409, 410, 422, 423, 429, 500, 501, 502, 504}

func vjson(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vsame(a, b string) bool {
	var x, y any
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

func vrunOps(t *testing.T, rt *vrt, ops []vop) int {
	n := 0
	for _, o := range ops {
		docs := o.good
		if docs == nil {
			docs = []any{nil}
		}
		run := func(what string, doc any, sent bool, okWanted bool, answer string) {
			n++
			rt.method, rt.path, rt.ctype, rt.doc = nil, nil, nil, nil
			var res any
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						t.Fatalf("VERIF-FAIL %s (%s, document %+v): panic %v", o.name, what, doc, p)
					}
				}()
				res, err = o.call(doc)
			}()
			if sent && len(rt.method) != 1 || !sent && len(rt.method) != 0 {
				t.Fatalf("VERIF-FAIL %s (%s, document %+v): %d requests sent", o.name, what, doc, len(rt.method))
			}
			if (err == nil) != okWanted {
				t.Fatalf("VERIF-FAIL %s (%s): error %v, success expected: %v", o.name, what, err, okWanted)
			}
			if sent {
				if rt.method[0] != o.method || rt.path[0] != o.path {
					t.Fatalf("VERIF-FAIL %s sent %s %s, documented is %s %s", o.name, rt.method[0], rt.path[0], o.method, o.path)
				}
				if o.name != "Healthy" && rt.ctype[0] == "" {
					t.Fatalf("VERIF-FAIL %s sent no content type", o.name)
				}
				if o.good != nil && !vsame(rt.doc[0], vjson(doc)) {
					t.Fatalf("VERIF-FAIL %s sent %s for the document %s", o.name, rt.doc[0], vjson(doc))
				}
			}
			if okWanted && o.answers != nil && res != nil && answer != "" && !vsame(vjson(res), answer) {
				t.Fatalf("VERIF-FAIL %s returned %s for the answer %s", o.name, vjson(res), answer)
			}
		}
		good := []string{""}
		if o.answers != nil {
			good = nil
			for _, a := range o.answers {
				good = append(good, vjson(a))
			}
		}
		for _, doc := range docs {
			for _, st := range vstatuses {
				for _, a := range append(append([]string{`{"Message":"refused"}`, `{`, ``, `[1]`}, good...), o.badAnswers...) {
					isGood := o.answers == nil
					for _, g := range good {
						isGood = isGood || o.answers != nil && a == g
					}
					rt.status, rt.body, rt.broken = st, a, false
					run(fmt.Sprintf("status %d answer %q", st, a), doc, true, st == o.ok && isGood, a)
				}
				rt.status, rt.body, rt.broken = st, "", true
				run(fmt.Sprintf("status %d, answer lost", st), doc, true, st == o.ok && o.answers == nil, "")
				rt.broken = false
			}
		}
		for _, doc := range o.bad {
			rt.status, rt.body = o.ok, good[0]
			run("invalid document", doc, false, false, "")
		}
	}
	fmt.Println("VERIF-CASES clients", n)
	return n
}
func vp[T any](v T) *T { return &v }
