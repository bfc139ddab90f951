package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"time"
	"verifhook"

	"github.com/hyperonym/ratus"
)

// subscriber runs one client.Subscribe call and judges what it does.
type subscriber struct {
	w        *World
	idx      int
	cfg      SubCfg
	inc      *Inc
	node     *Node
	cancel   func()
	started  time.Time
	cancelAt time.Time
	returned bool
	retErr   error
	retAt    time.Time
	running  int
	calls    int
	errCalls int
	loops    []*subLoop
	lastWork time.Time
}

// subLoop is one of the polling goroutines of a subscription.
type subLoop struct {
	n         int
	o         *OpRec // last request
	st        string // polling, answered, handling, committing, waiting
	notBefore time.Time
	why       string
	pl        *polled
	expect    bool // a commit must follow
	expired   bool
	at        time.Time
	errSeen   bool
	late      time.Duration // further time the next poll may take
}

func (w *World) subSlack() time.Duration {
	for _, k := range []string{"stall", "stall-goroutine", "net-partition", "net-dial-timeout", "net-refused", "net-silence", "net-delay"} {
		if w.injected[k] > 0 {
			return 5 * time.Second
		}
	}
	return 100 * time.Millisecond // nothing but network delays takes time
}

func (w *World) startSub(i int, cfg SubCfg) *subscriber {
	s := &subscriber{w: w, idx: i, cfg: cfg, node: w.nodes[cfg.Node%len(w.nodes)]}
	s.inc = w.newInc("sub", fmt.Sprintf("s%d", i), -1)
	w.subs = append(w.subs, s)
	return s
}

func (s *subscriber) run() {
	w := s.w
	verifhook.SetTag(mkTag(s.inc, 0))
	s.node.waitUp()
	forcePark(ptMisc)
	if w.stop {
		return
	}
	ms := func(x int) time.Duration { return time.Duration(x) * time.Millisecond }
	cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: fmt.Sprintf("http://%s:%d", s.node.host, s.node.port()), Timeout: ms(s.cfg.ClientTimeoutMS)})
	must(err)
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = func() {
		if s.cancelAt.IsZero() {
			s.cancelAt = w.now()
			w.logf("cancel subscription %d", s.idx)
			cancel()
		}
	}
	if s.cfg.CancelMS > 0 {
		w.after(ms(s.cfg.CancelMS), 0, "cancel subscription", s.cancel)
	}
	s.started = w.now()
	s.lastWork = s.started
	err = cl.Subscribe(ctx, &ratus.SubscribeOptions{
		Promise: &ratus.Promise{Consumer: s.cfg.Consumer, Timeout: s.cfg.Timeout, ID: "ignored"},
		Topic:   s.cfg.Topic, Concurrency: s.cfg.Concurrency, ConcurrencyDelay: ms(s.cfg.DelayMS),
		PollInterval: ms(s.cfg.PollMS), DrainInterval: ms(s.cfg.DrainMS), ErrorInterval: ms(s.cfg.ErrMS),
	}, s.handle)
	s.returned, s.retErr, s.retAt = true, err, w.now()
	w.logf("subscription %d returned %v", s.idx, err)
	if s.cancelAt.IsZero() {
		w.violate(ps("C16"), "sub-ended", "Subscribe returned %v before its context ended", err)
	} else if !errors.Is(err, context.Canceled) {
		w.violate(ps("C16"), "sub-error", "Subscribe returned %v instead of the context's error", err)
	}
	if s.running > 0 {
		w.violate(ps("C16"), "sub-left-handlers", "Subscribe returned while %d handlers were running", s.running)
	}
}

func (s *subscriber) limit() int { return max(1, s.cfg.Concurrency) }

func or(ms int, d time.Duration) time.Duration {
	if ms <= 0 {
		return d
	}
	return time.Duration(ms) * time.Millisecond
}

func (s *subscriber) delay() time.Duration { return or(s.cfg.DelayMS, ratus.DefaultConcurrencyDelay) }
func (s *subscriber) drain() time.Duration { return or(s.cfg.DrainMS, ratus.DefaultDrainInterval) }
func (s *subscriber) errIv() time.Duration { return or(s.cfg.ErrMS, ratus.DefaultErrorInterval) }

func (w *World) subOf(inc *Inc) *subscriber {
	for _, s := range w.subs {
		if s.inc == inc {
			return s
		}
	}
	return nil
}

// dynOp registers a request a subscription sends.
func (w *World) dynOp(inc *Inc, req *http.Request) *OpRec {
	s := w.subOf(inc)
	var body []byte
	if req.GetBody != nil {
		if b, err := req.GetBody(); err == nil {
			body, _ = io.ReadAll(b)
		}
	}
	prev := w.opOf(curOp())
	forcePark(ptMisc)
	o := w.newOp(nil, nil, s.node)
	o.sub = s
	o.req = parseHTTP(req.Method, req.URL.RequestURI(), body, s.node)
	o.invSeq, o.invAt, o.invVer = w.ev(), w.now(), o.store.head()
	if w.verbose {
		w.logf("subscription %d op%d %s", s.idx, o.id, reqStr(o.req))
	}
	l := (*subLoop)(nil)
	if prev != nil {
		l = prev.loop
	}
	k := w.orc
	k.eval("C16")
	if l == nil {
		l = &subLoop{n: len(s.loops), st: "waiting", notBefore: s.started.Add(s.delay() * time.Duration(len(s.loops))), why: "its start delay"}
		s.loops = append(s.loops, l)
		if len(s.loops) > s.limit() {
			w.violate(ps("C16"), "sub-loops", "subscription with concurrency %d polls from %d goroutines", s.cfg.Concurrency, len(s.loops))
		}
	}
	o.loop = l
	s.lastWork = w.now()
	o.url = req.URL
	if prev != nil && prev.loop == l && l.o == prev && prev.url == req.URL {
		// The HTTP library sends the same request again on another connection.
		l.o, l.at = o, w.now()
		o.reqCopyOf = prev
		return o
	}
	switch o.req.K {
	case "poll":
		if o.req.Topic != s.cfg.Topic {
			w.violate(ps("C16"), "sub-topic", "subscription of %q polled %q", s.cfg.Topic, o.req.Topic)
		}
		if o.req.Consumer != s.cfg.Consumer {
			w.violate(ps("C16"), "sub-consumer", "subscription polled as %q instead of %q", o.req.Consumer, s.cfg.Consumer)
		}
		if !s.cancelAt.IsZero() && o.invAt.After(s.cancelAt) {
			w.violate(ps("C16"), "sub-poll-after-cancel", "subscription polled %v after its context ended", o.invAt.Sub(s.cancelAt))
		}
		if l.expect {
			w.violate(ps("C16"), "sub-no-commit", "subscription polled again without committing task %q", l.pl.ctx.Task.ID)
			l.expect = false
		}
		if l.st != "waiting" {
			w.violate(ps("C16"), "sub-order", "subscription polled again while %s", l.st)
		} else if o.invAt.Before(l.notBefore) {
			w.violate(ps("C16"), "sub-too-soon", "subscription polled again %v too soon (%s)", l.notBefore.Sub(o.invAt), l.why)
		} else if o.invAt.After(l.notBefore.Add(w.subSlack() + l.late + w.splitDelay)) {
			w.violate(ps("C16"), "sub-too-late", "subscription polled again %v later than due (%s)", o.invAt.Sub(l.notBefore), l.why)
		}
		l.st = "polling"
		l.late = 0
		l.pl = nil
	case "commit":
		k.eval("C17")
		switch {
		case l.pl == nil || o.req.ID != l.pl.ctx.Task.ID:
			w.violate(ps("C16", "C17"), "sub-commit-foreign", "subscription committed task %q without a claim", o.req.ID)
		case l.pl.committed:
			w.violate(ps("C16", "C17"), "sub-commit-again", "subscription committed task %q again", o.req.ID)
		default:
			e := &Req{}
			l.pl.settings.fill(e)
			if x := diffCommit(e, o.req); x != "" {
				w.violate(ps("C16", "C17"), "sub-commit-differs", "commit of task %q sent the wrong %s: %s", o.req.ID, x, body)
			}
			o.ctxID = l.pl
		}
		if l.st != "handling" && l.st != "handled" {
			w.violate(ps("C16"), "sub-order", "subscription committed while %s", l.st)
		}
		l.expect = false
		if l.st == "handled" {
			l.st = "committing"
		}
	default:
		w.violate(ps("C16"), "sub-request", "subscription sent an unexpected request: %s %s", req.Method, req.URL)
	}
	l.o, l.at = o, w.now()
	return o
}

func diffCommit(a, b *Req) string {
	st := func(r *Req) int32 {
		if r.State == nil {
			return 2
		}
		return *r.State
	}
	switch {
	case a.Nonce != b.Nonce:
		return "nonce"
	case a.NewTopic != b.NewTopic:
		return "topic"
	case st(a) != st(b):
		return "state"
	case a.HasPay != b.HasPay || a.Payload != b.Payload:
		return "payload"
	case a.Sched.Set != b.Sched.Set || a.Sched.IsR != b.Sched.IsR || (a.Sched.IsR && a.Sched.Rel != b.Sched.Rel) || (!a.Sched.IsR && !a.Sched.Abs.Equal(b.Sched.Abs)):
		return "schedule"
	}
	return ""
}

// answered runs when the response header of a request arrived.
func (s *subscriber) answered(o *OpRec) {
	w := s.w
	if o.done {
		return
	}
	o.done = true
	o.retSeq, o.retAt, o.retVer = w.ev(), w.now(), o.store.head()
	if o.status >= 400 {
		o.err = fmt.Errorf("%w %d", errStatus, o.status)
	}
	if w.verbose {
		w.logf("subscription %d op%d answered %d", s.idx, o.id, o.status)
	}
	w.lastProgress, w.progressAt = w.steps, w.now()
	w.orc.answered(o)
	l := o.loop
	if l == nil || l.o != o {
		return
	}
	if o.gate != nil && o.gate.sent {
		return // an error must be reported
	}
	if o.req.K == "poll" && o.status == 404 {
		l.st, l.notBefore, l.why = "waiting", o.retAt.Add(s.drain()), "the topic was empty"
	}
	if o.req.K == "commit" && o.status == 404 && l.st == "committing" {
		// The task is gone; the library treats that like an empty topic.
		l.st, l.notBefore, l.why = "waiting", o.retAt.Add(min(s.drain(), s.errIv())), "the committed task was gone"
		l.late = max(s.drain(), s.errIv())
	}
	if o.req.K == "commit" && o.status < 300 {
		if l.pl != nil {
			l.pl.committed = true
		}
		if l.st == "committing" {
			l.st, l.notBefore, l.why = "waiting", o.retAt.Add(time.Duration(s.cfg.PollMS)*time.Millisecond), "a task was committed"
		}
	}
}

// answeredDyn judges answers to a subscription's requests.
func (k *Oracle) answeredDyn(o *OpRec, code int) {
	wrong := func(props []string, rule, f string, a ...any) {
		k.bad(o.store, props, rule, "op%d %s (subscription) answered %d: "+f, append([]any{o.id, reqStr(o.req), code}, a...)...)
	}
	switch o.req.K {
	case "poll":
		if code == 404 {
			k.notFoundPoll(o)
		} else if v := o.lastVer(); code == 200 && (v == nil || len(v.changes) != 1) {
			wrong(ps("C01", "C20"), "not-done", "no task was claimed")
		} else if code != 200 {
			wrong(ps("C20", "C16"), "status", "unexpected status")
		}
	case "commit":
		if code == 200 || code == 404 || code == 409 {
			k.judgeCommit(o, code, wrong, func() *TaskV { return nil }, func(...int) bool { return true })
		} else {
			wrong(ps("C20", "C16"), "status", "unexpected status")
		}
	}
}

// handle is the user's handler.
func (s *subscriber) handle(x *ratus.Context, err error) {
	w := s.w
	k := w.orc
	k.eval("C16")
	o := w.opOf(curOp())
	var l *subLoop
	if o != nil {
		l = o.loop
	}
	s.lastWork = w.now()
	if l == nil {
		l = &subLoop{n: len(s.loops), st: "waiting"}
		if err == nil {
			w.violate(ps("C16"), "sub-handler", "handler called before any poll")
			return
		}
		// The very first poll could not even connect.
		s.errCalls++
		w.probe("sub-error-reported")
		s.loops = append(s.loops, l)
		if len(s.loops) > s.limit() {
			w.violate(ps("C16"), "sub-loops", "subscription with concurrency %d polls from %d goroutines", s.cfg.Concurrency, len(s.loops))
		}
		d := w.newOp(nil, nil, s.node)
		d.sub, d.loop, d.req, d.done = s, l, &Req{K: "noop"}, true
		d.invAt = w.now()
		verifhook.SetTag(mkTag(s.inc, d.id))
		forcePark(ptHandler)
		l.at, l.notBefore, l.why = w.now(), w.now().Add(s.errIv()), "an error was reported"
		return
	}
	if err != nil {
		s.errCalls++
		w.probe("sub-error-reported")
		if w.verbose {
			w.logf("subscription %d error handler: %v", s.idx, err)
		}
		if x != nil {
			w.violate(ps("C16"), "sub-handler-both", "handler got both a task and the error %v", err)
		}
		if errors.Is(err, ratus.ErrNotFound) && (o.req.K == "poll") {
			w.violate(ps("C16"), "sub-notfound", "an empty topic was reported to the handler as %v", err)
		}
		switch l.st {
		case "polling", "committing":
		case "handled":
			// The commit failed before a request was sent.
			l.expect = false
		case "waiting":
			if o.status != 0 && o.status < 400 && !k.disturbed(o) && o.gate == nil && w.splitDelay == 0 {
				w.violate(ps("C16"), "sub-error-unfounded", "handler got the error %v although %s was answered %d", err, reqStr(o.req), o.status)
			}
		default:
			w.violate(ps("C16"), "sub-order", "error handler called while %s: %v", l.st, err)
		}
		if l.st == "polling" && o.done && o.status == 200 && !k.netTrouble(o) && !k.disturbed(o) && o.gate == nil && w.splitDelay == 0 && s.cfg.ClientTimeoutMS == 0 {
			w.violate(ps("C16", "C06"), "sub-task-lost", "a claimed task was not handed to the handler: %v", err)
		}
		l.st = "erring"
		forcePark(ptHandler)
		l.at = w.now()
		l.st, l.notBefore, l.why = "waiting", w.now().Add(s.errIv()), "an error was reported"
		return
	}
	s.calls++
	s.running++
	if s.running > s.limit() {
		w.violate(ps("C16"), "sub-concurrency", "%d handlers run at once; the limit is %d", s.running, s.limit())
	}
	if s.running > 1 {
		w.probe("sub-parallel-handlers")
	}
	w.probe("sub-handled")
	if x == nil || x.Task == nil {
		w.violate(ps("C16"), "sub-no-task", "handler called without a task")
		s.running--
		return
	}
	t := viewOf(x.Task)
	v := o.lastVer()
	switch {
	case o.req.K != "poll" || o.status != 200 || v == nil || len(v.changes) != 1:
		w.violate(ps("C16"), "sub-handler", "handler called with %s although the last request was %s answered %d", t, reqStr(o.req), o.status)
	case o.handled:
		w.violate(ps("C16"), "sub-twice", "handler called twice for one claim: %s", t)
	case !eqTask(v.changes[0].after, t):
		w.violate(ps("C16", "C07"), "sub-wrong-task", "handler called with %s but claimed was %s", t, v.changes[0].after)
	}
	o.handled = true
	l.st = "handling"
	st := int32(2)
	pl := &polled{ctx: x, op: o, at: w.now(), cancel: func() {}, settings: commitSet{nonce: x.Task.Nonce, state: &st}}
	l.pl = pl
	if x.Task.Consumed != nil && x.Task.Deadline != nil {
		k.eval("C17")
		pl.hasWin, pl.window = true, x.Task.Deadline.Sub(*x.Task.Consumed)
		if dl, ok := x.Deadline(); !ok {
			w.violate(ps("C17"), "context-no-deadline", "handler context of task %q has no deadline", t.ID)
		} else if d := dl.Round(0).Sub(pl.at.Add(pl.window)); d < -time.Millisecond || d > time.Millisecond {
			w.violate(ps("C17"), "context-deadline", "handler context of task %q expires %v from the expected moment", t.ID, d)
		}
	}
	forcePark(ptHandler)
	h := HandlerCfg{}
	if len(s.cfg.Handler) > 0 {
		h = s.cfg.Handler[(s.calls-1)%len(s.cfg.Handler)]
	}
	if h.WorkMS > 0 {
		time.Sleep(time.Duration(h.WorkMS) * time.Millisecond)
	}
	if len(h.Do) > 0 {
		applySettings(w, pl, h.Do, h.Payload, w.now())
	}
	for i := 0; i < h.Commits; i++ {
		was := pl.committed
		before := w.opOf(curOp())
		err := x.Commit()
		sent := w.opOf(curOp()) != before
		if was && (err != nil || sent) {
			w.violate(ps("C17"), "commit-again", "committing a committed context again: err=%v, request sent=%v", err, sent)
		}
		if err == nil && !was && !sent {
			w.violate(ps("C17"), "commit-not-sent", "Commit of task %q returned nil without sending a request", t.ID)
		}
		if err == nil && !was && sent && !pl.committed {
			w.violate(ps("C17", "C20"), "commit-not-done", "Commit of task %q returned nil without success", t.ID)
		}
		if err != nil && pl.committed && !was && !k.disturbed(o) && w.splitDelay == 0 {
			w.violate(ps("C17", "C20"), "commit-false-error", "Commit of task %q was answered with success but returned %v", t.ID, err)
		}
		if err != nil {
			w.probe("sub-commit-failed")
			// The library does not know that a lost answer was a success.
			if pl.committed {
				pl.committed = false
			}
		}
	}
	s.running--
	s.lastWork, l.at = w.now(), w.now()
	l.st = "handled"
	if pl.committed {
		l.expect = false
		l.st, l.notBefore, l.why = "waiting", w.now().Add(time.Duration(s.cfg.PollMS)*time.Millisecond), "a task was committed"
		return
	}
	expired := pl.hasWin && w.now().Sub(pl.at) >= pl.window
	if x.Err() != nil && !expired && s.cancelAt.IsZero() {
		w.violate(ps("C17"), "context-ended", "the context of task %q ended %v after the poll although its allowance is %v", t.ID, w.now().Sub(pl.at), pl.window)
	}
	l.expect = !expired && s.cancelAt.IsZero()
}

// finalSubs judges subscriptions once faults have stopped; called at quiet time.
func (k *Oracle) liveSubs() {
	w := k.w
	for _, s := range w.subs {
		if !s.cancelAt.IsZero() || s.returned || s.started.IsZero() {
			continue
		}
		k.eval("C16")
		longest := 0
		for _, h := range s.cfg.Handler {
			longest = max(longest, h.WorkMS)
		}
		lim := max(s.drain(), s.errIv(), time.Duration(s.cfg.PollMS)*time.Millisecond) + time.Duration(longest)*time.Millisecond + 5*time.Second
		if len(s.loops) < s.limit() {
			w.violate(ps("C16"), "sub-missing-loops", "subscription with concurrency %d polls from only %d goroutines", s.cfg.Concurrency, len(s.loops))
		}
		for _, l := range s.loops {
			if d := w.now().Sub(l.at); d > lim && l.st != "handling" {
				w.violate(ps("C16"), "sub-stopped", "a polling goroutine of a subscription has been idle for %v (state %s, limit %v)", d, l.st, lim)
			}
		}
	}
}

// endSubs judges cancelled subscriptions.
func (k *Oracle) endSubs() {
	w := k.w
	for _, s := range w.subs {
		if s.cancelAt.IsZero() || s.started.IsZero() {
			continue
		}
		k.eval("C16")
		if !s.returned {
			w.violate(ps("C16"), "sub-not-ended", "Subscribe has not returned %v after its context ended", w.now().Sub(s.cancelAt))
		}
	}
}
