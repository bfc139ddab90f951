package main

import (
	"io"
	"net/http"
	"strconv"
	"time"
)

// A gateway stands in front of a server. When faulty it answers in place of the
// server, either without having passed the request on or after losing the
// server's answer.

type gateAnswer struct {
	status int
	ctype  string
	body   string
	code   int  // code of a well-formed error body, 0 if there is none
	passed bool // the request reached the server
	sent   bool
}

var gateAnswers = []gateAnswer{
	{status: 502, ctype: "text/html", body: "<html><head><title>502 Bad Gateway</title></head><body><center><h1>502 Bad Gateway</h1></center></body></html>"},
	{status: 503, ctype: "application/json", body: `{"error":{"code":503,"message":"no healthy upstream"}}`, code: 503},
	{status: 503, ctype: "text/plain", body: "upstream connect error or disconnect/reset before headers"},
	{status: 504, ctype: "text/html", body: ""},
	{status: 500, ctype: "application/json", body: `{"error":{"code":500,"message":""}}`, code: 500},
	{status: 429, ctype: "application/json", body: `{"error":{"code":429,"message":"slow down"}}`, code: 429},
	{status: 503, ctype: "application/json", body: `{"error":{"code":503,"message":"service unavailable: draining"}}`, code: 503},
	{status: 502, ctype: "application/json", body: `{"message":"bad gateway"}`, code: -1},
	{status: 404, ctype: "text/plain", body: "default backend - 404"},
	{status: 401, ctype: "application/json", body: `{"error":{"code":401,"message":"unauthorized"}}`, code: 401},
	{status: 200, ctype: "text/html", body: "<html>welcome</html>"},
}

type gateWriter struct{ h http.Header }

func (g *gateWriter) Header() http.Header         { return g.h }
func (g *gateWriter) Write(b []byte) (int, error) { return len(b), nil }
func (g *gateWriter) WriteHeader(int)             {}

// gateway decides whether the front of the server answers a request itself.
func gateway(op string, rw, r any) (any, func()) {
	inc := curInc()
	if inc == nil || inc.kind != "node" {
		return nil, nil
	}
	w := W
	for _, f := range w.fire("gate") {
		if f.K == "gateway" {
			w.gateFault, w.gateUntil = f, w.now().Add(time.Duration(f.C)*time.Millisecond)
			if f.C == 0 {
				w.gateOnce = true
			}
		}
	}
	f := w.gateFault
	if f == nil || w.healed || !(w.gateOnce || w.now().Before(w.gateUntil)) {
		return nil, nil
	}
	w.gateOnce = false
	id, err := strconv.Atoi(op)
	if err != nil || id <= 0 || id >= len(w.ops) {
		return nil, nil
	}
	o := w.ops[id]
	a := gateAnswers[f.A%len(gateAnswers)]
	if a.status == 200 && (o.req == nil || o.plain() || o.req.K == "live" || o.req.K == "ready" || o.req.K == "metrics") {
		return nil, nil
	}
	a.passed = f.B == 1
	o.gate = &a
	w.injected["gateway"]++
	if w.verbose {
		w.logf("gateway answers op%d with %d %s (passed on: %v)", id, a.status, short(a.body), a.passed)
	}
	fin := func() {
		if inc.dead {
			select {}
		}
		req := r.(*http.Request)
		if !a.passed {
			io.Copy(io.Discard, req.Body)
		}
		o.gate.sent = true
		h := rw.(http.ResponseWriter)
		h.Header().Set("Content-Type", a.ctype)
		h.WriteHeader(a.status)
		io.WriteString(h, a.body)
	}
	if a.passed {
		return &gateWriter{http.Header{}}, fin
	}
	return nil, fin
}

// answeredGate judges what the client made of an answer that is not the
// server's.
func (k *Oracle) answeredGate(o *OpRec) {
	o.indoubt = true
	g := o.gate
	s := o.store
	k.eval("C20")
	if !g.passed {
		for _, v := range o.vers {
			if len(v.changes) > 0 {
				k.bad(s, ps("C20"), "phantom-change", "op%d %s never reached the server but changed %s", o.id, reqStr(o.req), changesStr(v.changes))
			}
		}
	}
	if o.sub != nil || o.plain() || o.canceled || o.timedOut {
		return
	}
	if o.err == nil {
		k.bad(s, ps("C20"), "error-as-success", "op%d %s: a gateway answered %d %s but the client returned success", o.id, reqStr(o.req), g.status, short(g.body))
		return
	}
	sc := sentinel(o.err)
	want := 0
	switch g.code {
	case 500, 503:
		want = g.code
	}
	if want != 0 && sc != want && o.status == g.status && !k.netFaulty(o.invAt) {
		k.bad(s, ps("C20"), "no-sentinel", "op%d %s: a gateway answered %s but the client returned %v", o.id, reqStr(o.req), g.body, o.err)
	} else if sc != 0 && sc != g.status {
		k.bad(s, ps("C20"), "wrong-sentinel", "op%d %s: a gateway answered %d %s but the client returned %v", o.id, reqStr(o.req), g.status, short(g.body), o.err)
	}
}
