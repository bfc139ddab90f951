package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"
	"verifhook"

	"github.com/hyperonym/ratus"
)

// Op is one planned client operation.
type Op struct {
	K         string
	Node      int             `json:",omitempty"`
	Topic     string          `json:",omitempty"`
	ID        string          `json:",omitempty"`
	Tasks     []TaskSpec      `json:",omitempty"`
	Nonce     string          `json:",omitempty"` // "", "@k", "#k", literal
	State     *int            `json:",omitempty"`
	Sched     string          `json:",omitempty"`
	Defer     string          `json:",omitempty"`
	Payload   json.RawMessage `json:",omitempty"`
	Consumer  string          `json:",omitempty"`
	Timeout   string          `json:",omitempty"`
	Deadline  string          `json:",omitempty"`
	Limit     int             `json:",omitempty"`
	Offset    int             `json:",omitempty"`
	NoLimit   bool            `json:",omitempty"` // do not send limit/offset
	Raw       *RawSpec        `json:",omitempty"`
	TimeoutMS int             `json:",omitempty"`
	CancelMS  int             `json:",omitempty"`
	SleepMS   int             `json:",omitempty"`
	NoWait    bool            `json:",omitempty"` // send even while the node is down
	Do        []string        `json:",omitempty"` // settings for ccommit
	CtxN      int             `json:",omitempty"` // which polled context (k-th last)
	Plain     bool            `json:",omitempty"` // plain HTTP instead of the client library
	V0        bool            `json:",omitempty"` // unversioned prefix
	Query     bool            `json:",omitempty"` // promise through query parameters
}

type TaskSpec struct {
	ID, Topic          string
	State              int             `json:",omitempty"`
	Nonce              string          `json:",omitempty"`
	Producer           string          `json:",omitempty"`
	Consumer           string          `json:",omitempty"`
	Produced           string          `json:",omitempty"`
	Sched              string          `json:",omitempty"`
	Consumed, Deadline string          `json:",omitempty"`
	Payload            json.RawMessage `json:",omitempty"`
	Defer              string          `json:",omitempty"`
}

type RawSpec struct {
	Method, Path string
	Body         string
	Cut          int               `json:",omitempty"` // send only this many body bytes then close (or hang if Hang)
	Hang         bool              `json:",omitempty"`
	HalfClose    bool              `json:",omitempty"`
	Chunked      bool              `json:",omitempty"`
	Headers      map[string]string `json:",omitempty"`
	Bytes        string            `json:",omitempty"` // send exactly these bytes
	Expect       string            // bad: must be 4xx; ok: parse; any: anything but a crash; 404
}

// TimeIn is a time in a request: absolute, or relative to acceptance.
type TimeIn struct {
	Set bool
	Abs time.Time
	Rel time.Duration
	IsR bool
}

// Req is what a request asks for, by the documented API.
type Req struct {
	index    *batchIndex
	K        string
	Topic    string
	ID       string
	Tasks    []*TaskIn
	Nonce    string
	NewTopic string
	State    *int32
	Sched    TimeIn
	Payload  string
	HasPay   bool
	Consumer string
	Deadline TimeIn
	Limit    int
	Offset   int
	NoLimit  bool
	Expect   string
}

type TaskIn struct {
	V           TaskV
	ProducedNow bool
	Sched       TimeIn
}

type ServeRec struct {
	inc         *Inc
	seq, endSeq uint64
	at, end     time.Time
	ended       bool
}

type OpRec struct {
	id        int
	c         *Client
	op        *Op
	req       *Req
	node      *Node
	store     *Store
	invSeq    uint64
	retSeq    uint64
	invAt     time.Time
	retAt     time.Time
	invVer    int
	retVer    int
	serves    []*ServeRec
	sent      int
	done      bool
	status    int // HTTP status seen by the client's transport, 0 if none
	err       error
	indoubt   bool
	canceled  bool
	timedOut  bool
	resp      any
	vers      []*Ver
	sub       *subscriber
	final     bool // answered definitively
	defTO     bool
	ctxID     *polled
	rawBody   []byte
	nowOff    time.Duration
	cancels   []func()
	loop      *subLoop
	handled   bool
	reqCopyOf *OpRec
	url       *url.URL
	gate      *gateAnswer // a front proxy answered in place of the server
}

type Client struct {
	w       *World
	idx     int
	name    string
	inc     *Inc
	ops     []Op
	rc      map[int]*ratus.Client
	hc      map[int]*http.Client
	claims  []claim
	polled  []*polled
	done    bool
	cur     *OpRec
	skipped int
}

type claim struct {
	nonce, id string
}

type polled struct {
	ctx       *ratus.Context
	op        *OpRec
	at        time.Time
	window    time.Duration
	hasWin    bool
	committed bool
	settings  commitSet
	cancel    func()
}

// commitSet mirrors the settings a user made on a context.
type commitSet struct {
	nonce   string
	topic   string
	state   *int32
	sched   TimeIn
	payload string
	hasPay  bool
	deferd  string
}

func (w *World) newClient(name string) *Client {
	c := &Client{w: w, idx: len(w.clients), name: name, rc: map[int]*ratus.Client{}, hc: map[int]*http.Client{}}
	c.inc = w.newInc("client", name, -1)
	w.clients = append(w.clients, c)
	return c
}

func (w *World) lib(c map[int]*ratus.Client, n *Node, to time.Duration) *ratus.Client {
	r := c[n.idx]
	if r == nil {
		var err error
		r, err = ratus.NewClient(&ratus.ClientOptions{Origin: fmt.Sprintf("http://%s:%d", n.host, n.port()), Timeout: to, Headers: map[string]string{"X-Test": "1"}})
		must(err)
		c[n.idx] = r
	}
	return r
}

func parseT(s string, now time.Time) TimeIn {
	if s == "" {
		return TimeIn{}
	}
	if strings.HasPrefix(s, "now") {
		d, err := time.ParseDuration(strings.TrimPrefix(s[3:], "+"))
		must(err)
		return TimeIn{Set: true, Abs: now.Add(d)}
	}
	t, err := time.Parse(time.RFC3339Nano, s)
	must(err)
	return TimeIn{Set: true, Abs: t}
}

func (t TimeIn) ptr() *time.Time {
	if !t.Set {
		return nil
	}
	x := t.Abs.UTC()
	return &x
}

// bigPrefix marks a payload that a plan gives by its size only.
const bigPrefix = `{"$big":`

// expand builds a payload given by its size.
func expand(b json.RawMessage) json.RawMessage {
	if !strings.HasPrefix(string(b), bigPrefix) {
		return b
	}
	n, err := strconv.Atoi(strings.TrimSuffix(string(b[len(bigPrefix):]), "}"))
	must(err)
	s := make([]byte, 0, n+16)
	s = append(s, `{"big":"`...)
	for i := 0; i < n; i++ {
		s = append(s, "abcdefghijklmnopqrstuvwxyz0123456789"[(i+i/36)%36])
	}
	return append(s, `"}`...)
}

func anyPayload(b json.RawMessage) any {
	if len(b) == 0 {
		return nil
	}
	var v any
	must(json.Unmarshal(expand(b), &v))
	return v
}

func canonRaw(b json.RawMessage) string {
	if len(b) == 0 {
		return ""
	}
	return canonical(expand(b))
}

// buildTask makes the wire task and the expected stored task.
func buildTask(s *TaskSpec, pathID, pathTopic string, now time.Time) (*ratus.Task, *TaskIn) {
	pr, sc, co, de := parseT(s.Produced, now), parseT(s.Sched, now), parseT(s.Consumed, now), parseT(s.Deadline, now)
	t := &ratus.Task{ID: s.ID, Topic: s.Topic, State: ratus.TaskState(s.State), Nonce: s.Nonce, Producer: s.Producer, Consumer: s.Consumer,
		Produced: pr.ptr(), Scheduled: sc.ptr(), Consumed: co.ptr(), Deadline: de.ptr(), Payload: anyPayload(s.Payload), Defer: s.Defer}
	id, topic := s.ID, s.Topic
	if id == "" {
		id = pathID
	}
	if topic == "" {
		topic = pathTopic
	}
	in := &TaskIn{V: TaskV{ID: id, Topic: topic, State: int32(s.State), Nonce: s.Nonce, Producer: s.Producer, Consumer: s.Consumer,
		Produced: pr.ptr(), Scheduled: sc.ptr(), Consumed: co.ptr(), Deadline: de.ptr(), Payload: canonRaw(s.Payload)}}
	if in.V.Produced == nil {
		in.ProducedNow = true
	}
	if sc.Set {
		in.Sched = sc
	} else if s.Defer != "" {
		d, err := time.ParseDuration(s.Defer)
		must(err)
		in.Sched = TimeIn{Set: true, IsR: true, Rel: d}
	} else {
		in.Sched = TimeIn{Set: true, IsR: true}
	}
	return t, in
}

func (c *Client) nonce(s string) string {
	w := c.w
	switch {
	case strings.HasPrefix(s, "@"):
		k, _ := strconv.Atoi(s[1:])
		if len(c.claims) == 0 {
			return "nonexistentnonce"
		}
		return c.claims[len(c.claims)-1-k%len(c.claims)].nonce
	case strings.HasPrefix(s, "#"):
		k, _ := strconv.Atoi(s[1:])
		var all []string
		for _, o := range w.clients {
			for _, cl := range o.claims {
				all = append(all, cl.nonce)
			}
		}
		if len(all) == 0 {
			return "nonexistentnonce"
		}
		return all[k%len(all)]
	}
	return s
}

func (c *Client) symID(s string) string {
	if strings.HasPrefix(s, "@") {
		k, _ := strconv.Atoi(s[1:])
		if len(c.claims) == 0 {
			return "t-none"
		}
		return c.claims[len(c.claims)-1-k%len(c.claims)].id
	}
	return s
}

func (w *World) newOp(c *Client, op *Op, n *Node) *OpRec {
	if len(w.ops) == 0 {
		w.ops = append(w.ops, nil) // id 0: background
	}
	o := &OpRec{id: len(w.ops), c: c, op: op, node: n}
	if n != nil {
		o.store = n.store
	}
	w.ops = append(w.ops, o)
	return o
}

const defaultOpTimeout = 180 * time.Second

// perform runs one operation to completion on the calling goroutine.
func (c *Client) perform(op *Op) *OpRec {
	w := c.w
	if op.K == "sleep" {
		time.Sleep(time.Duration(op.SleepMS) * time.Millisecond)
		return nil
	}
	n := w.nodes[op.Node%len(w.nodes)]
	verifhook.SetTag(mkTag(c.inc, 0))
	if !op.NoWait {
		n.waitUp()
	}
	forcePark(ptMisc) // so that operations are numbered in an order of ours
	o := w.newOp(c, op, n)
	c.cur = o
	verifhook.SetTag(mkTag(c.inc, o.id))
	forcePark(ptOp)
	if w.stop {
		return o
	}
	now := w.now()
	o.invSeq, o.invAt, o.invVer = w.ev(), now, o.store.head()
	if w.mongo != nil {
		o.nowOff = 0
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	to := defaultOpTimeout
	if op.TimeoutMS > 0 {
		to = time.Duration(op.TimeoutMS) * time.Millisecond
	} else {
		o.defTO = true
	}
	cancelAll := func() {
		cancel()
		for _, f := range o.cancels {
			f()
		}
	}
	t1 := time.AfterFunc(to, func() {
		if !o.done {
			o.timedOut = true
			cancelAll()
		}
	})
	defer t1.Stop()
	if op.CancelMS > 0 {
		t2 := time.AfterFunc(time.Duration(op.CancelMS)*time.Millisecond, func() {
			if !o.done {
				o.canceled = true
				w.injected["client-cancel"]++
				cancelAll()
			}
		})
		defer t2.Stop()
	}
	c.exec(ctx, o, op, n, now)
	if w.stop {
		return o
	}
	c.finish(o)
	return o
}

func (c *Client) finish(o *OpRec) {
	w := c.w
	o.done = true
	o.retSeq, o.retAt, o.retVer = w.ev(), w.now(), o.store.head()
	if w.verbose {
		w.logf("%s op%d %s -> status=%d err=%v resp=%s", c.name, o.id, reqStr(o.req), o.status, o.err, short(fmtResp(o.resp)))
	}
	w.lastProgress, w.progressAt = w.steps, w.now()
	w.orc.answered(o)
	c.cur = nil
	verifhook.SetTag(mkTag(c.inc, 0))
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func fmtResp(v any) string {
	if v == nil {
		return "-"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func reqStr(r *Req) string {
	if r == nil {
		return "<none>"
	}
	s := r.K
	if r.Topic != "" {
		s += " topic=" + strconv.Quote(r.Topic)
	}
	if r.ID != "" {
		s += " id=" + strconv.Quote(r.ID)
	}
	if r.Nonce != "" {
		s += " nonce=" + r.Nonce
	}
	for _, t := range r.Tasks {
		s += " " + t.V.ID + "/" + t.V.Topic
	}
	return s
}

func i32(p *int) *int32 {
	if p == nil {
		return nil
	}
	x := int32(*p)
	return &x
}

// exec builds the request and sends it.
func (c *Client) exec(ctx context.Context, o *OpRec, op *Op, n *Node, now time.Time) {
	w := c.w
	if op.Raw != nil {
		c.execRaw(ctx, o, op, n)
		return
	}
	if op.Plain {
		c.execPlain(ctx, o, op, n, now)
		return
	}
	cl := w.lib(c.rc, n, 0)
	r := &Req{K: op.K, Topic: op.Topic, ID: c.symID(op.ID)}
	o.req = r
	switch op.K {
	case "insert", "upsert":
		t, in := buildTask(&op.Tasks[0], op.ID, op.Topic, now)
		r.Tasks = []*TaskIn{in}
		r.ID = in.V.ID
		var v *ratus.Updated
		if op.K == "insert" {
			v, o.err = cl.InsertTask(ctx, t)
		} else {
			v, o.err = cl.UpsertTask(ctx, t)
		}
		setResp(o, v)
	case "inserts", "upserts":
		ts := []*ratus.Task{}
		for i := range op.Tasks {
			t, in := buildTask(&op.Tasks[i], "", op.Topic, now)
			ts = append(ts, t)
			r.Tasks = append(r.Tasks, in)
		}
		var v *ratus.Updated
		if op.K == "inserts" {
			v, o.err = cl.InsertTasks(ctx, ts)
		} else {
			v, o.err = cl.UpsertTasks(ctx, ts)
		}
		setResp(o, v)
	case "get":
		v, err := cl.GetTask(ctx, r.ID)
		o.err = err
		setResp(o, v)
	case "delete":
		v, err := cl.DeleteTask(ctx, r.ID)
		o.err = err
		setResp(o, v)
	case "commit":
		r.Nonce = c.nonce(op.Nonce)
		r.NewTopic = op.Topic
		r.Topic = ""
		m := &ratus.Commit{Nonce: r.Nonce, Topic: op.Topic}
		r.State = i32(op.State)
		if op.State != nil {
			s := ratus.TaskState(*op.State)
			m.State = &s
		}
		r.Sched = parseT(op.Sched, now)
		m.Scheduled = r.Sched.ptr()
		m.Defer = op.Defer
		if op.Defer != "" && !r.Sched.Set {
			d, err := time.ParseDuration(op.Defer)
			must(err)
			r.Sched = TimeIn{Set: true, IsR: true, Rel: d}
		}
		m.Payload = anyPayload(op.Payload)
		r.Payload, r.HasPay = canonRaw(op.Payload), canonRaw(op.Payload) != ""
		v, err := cl.PatchTask(ctx, r.ID, m)
		o.err = err
		setResp(o, v)
	case "poll", "claim", "fclaim":
		p := promiseOf(op, r, now)
		var v *ratus.Task
		switch op.K {
		case "poll":
			v, o.err = cl.PostPromises(ctx, op.Topic, p)
		case "claim":
			p.ID = r.ID
			v, o.err = cl.InsertPromise(ctx, p)
		default:
			p.ID = r.ID
			v, o.err = cl.UpsertPromise(ctx, p)
		}
		if o.err == nil {
			c.claims = append(c.claims, claim{v.Nonce, v.ID})
		}
		setResp(o, v)
	case "cpoll":
		r.K = "poll"
		c.execCtxPoll(ctx, o, op, cl, now)
	case "ccommit":
		c.execCtxCommit(ctx, o, op, now)
	case "revoke":
		v, err := cl.DeletePromise(ctx, r.ID)
		o.err = err
		setResp(o, v)
	case "revokes":
		v, err := cl.DeletePromises(ctx, op.Topic)
		o.err = err
		setResp(o, v)
	case "getp":
		v, err := cl.GetPromise(ctx, r.ID)
		o.err = err
		setResp(o, v)
	case "listp":
		r.Limit, r.Offset = op.Limit, op.Offset
		v, err := cl.ListPromises(ctx, op.Topic, op.Limit, op.Offset)
		o.err = err
		o.resp = v
	case "listt":
		r.Limit, r.Offset = op.Limit, op.Offset
		v, err := cl.ListTasks(ctx, op.Topic, op.Limit, op.Offset)
		o.err = err
		o.resp = v
	case "topics":
		r.Limit, r.Offset = op.Limit, op.Offset
		v, err := cl.ListTopics(ctx, op.Limit, op.Offset)
		o.err = err
		o.resp = v
	case "topic":
		v, err := cl.GetTopic(ctx, op.Topic)
		o.err = err
		setResp(o, v)
	case "deltopic":
		v, err := cl.DeleteTopic(ctx, op.Topic)
		o.err = err
		setResp(o, v)
	case "deltasks":
		v, err := cl.DeleteTasks(ctx, op.Topic)
		o.err = err
		setResp(o, v)
	case "deltopics":
		v, err := cl.DeleteTopics(ctx)
		o.err = err
		setResp(o, v)
	case "live":
		o.err = cl.GetLiveness(ctx)
	case "ready":
		o.err = cl.GetReadiness(ctx)
	default:
		must(fmt.Errorf("unknown op %q", op.K))
	}
}

func setResp[T any](o *OpRec, v *T) {
	if o.err == nil && v != nil {
		o.resp = v
	}
}

func promiseOf(op *Op, r *Req, now time.Time) *ratus.Promise {
	p := &ratus.Promise{Consumer: op.Consumer, Timeout: op.Timeout}
	r.Consumer = op.Consumer
	r.Deadline = parseT(op.Deadline, now)
	p.Deadline = r.Deadline.ptr()
	if !r.Deadline.Set {
		d := 10 * time.Minute
		if op.Timeout != "" {
			var err error
			d, err = time.ParseDuration(op.Timeout)
			must(err)
		}
		r.Deadline = TimeIn{Set: true, IsR: true, Rel: d}
	}
	return p
}

func (c *Client) execCtxPoll(ctx context.Context, o *OpRec, op *Op, cl *ratus.Client, now time.Time) {
	w := c.w
	p := promiseOf(op, o.req, now)
	parent, pcancel := context.WithCancel(context.Background()) // outlives this operation
	o.cancels = append(o.cancels, pcancel)
	x, err := cl.Poll(parent, op.Topic, p)
	o.err = err
	if err != nil {
		return
	}
	o.resp = x.Task
	pl := &polled{ctx: x, op: o, at: w.now(), cancel: pcancel}
	s := int32(2)
	if x.Task == nil {
		w.violate([]string{"C17"}, "context-no-task", "client.Poll returned a context without a task for op %d", o.id)
		return
	}
	pl.settings = commitSet{nonce: x.Task.Nonce, state: &s}
	c.claims = append(c.claims, claim{x.Task.Nonce, x.Task.ID})
	if x.Task.Consumed != nil && x.Task.Deadline != nil {
		pl.hasWin = true
		pl.window = x.Task.Deadline.Sub(*x.Task.Consumed)
		dl, ok := x.Deadline()
		want := pl.at.Add(pl.window)
		if !ok {
			w.violate([]string{"C17"}, "context-no-deadline", "context of task %q has no deadline; deadline-consumed=%v", x.Task.ID, pl.window)
		} else if d := dl.Round(0).Sub(want); d < -time.Millisecond || d > time.Millisecond {
			w.violate([]string{"C17"}, "context-deadline", "context of task %q expires %v from the expected moment (allowance %v)", x.Task.ID, d, pl.window)
		}
	}
	c.polled = append(c.polled, pl)
}

func (c *Client) execCtxCommit(ctx context.Context, o *OpRec, op *Op, now time.Time) {
	w := c.w
	o.req.K = "commit"
	if len(c.polled) == 0 {
		o.req.K = "noop"
		return
	}
	pl := c.polled[len(c.polled)-1-op.CtxN%len(c.polled)]
	applySettings(w, pl, op.Do, op.Payload, now)
	r := o.req
	pl.settings.fill(r)
	r.ID = pl.ctx.Task.ID
	o.ctxID = pl
	o.cancels = append(o.cancels, pl.cancel)
	was := pl.committed
	expired := pl.hasWin && pl.window <= now.Sub(pl.at)
	o.err = pl.ctx.Commit()
	if was {
		if o.err != nil || o.sent > 0 {
			w.violate([]string{"C17"}, "commit-again", "committing a committed context again for task %q: err=%v requests sent=%d", r.ID, o.err, o.sent)
		}
		o.req.K = "noop"
		return
	}
	if o.err == nil {
		if o.sent == 0 {
			w.violate([]string{"C17"}, "commit-not-sent", "Commit of task %q returned nil without sending a request", r.ID)
		}
		pl.committed = true
		if e := pl.ctx.Err(); pl.hasWin && e == nil {
			w.probe("ctx-not-cancelled")
		}
	} else if expired && o.sent == 0 {
		o.req.K = "noop"
		w.probe("ctx-expired-commit")
	}
	if expired && o.err == nil {
		w.violate([]string{"C17"}, "expired-commit", "Commit of task %q through an expired context succeeded", r.ID)
	}
	if !expired && pl.hasWin {
		// During the call the context may have expired.
		if w.now().Sub(pl.at) >= pl.window {
			o.canceled = true
		}
	}
}

func (s *commitSet) fill(r *Req) {
	r.Nonce, r.NewTopic, r.State, r.Sched, r.Payload, r.HasPay = s.nonce, s.topic, s.state, s.sched, s.payload, s.hasPay
	r.Topic = ""
	if s.deferd != "" && !r.Sched.Set {
		if d, err := time.ParseDuration(s.deferd); err == nil {
			r.Sched = TimeIn{Set: true, IsR: true, Rel: d}
		} else {
			r.K = "bad"
			r.Expect = "bad"
		}
	}
}

// applySettings performs the user's calls on a context and mirrors them.
func applySettings(w *World, pl *polled, do []string, payload json.RawMessage, now time.Time) {
	x, s := pl.ctx, &pl.settings
	st := func(i int32) *int32 { return &i }
	for _, d := range do {
		k, arg, _ := strings.Cut(d, ":")
		switch k {
		case "topic":
			x.SetTopic(arg)
			s.topic = arg
		case "state":
			i, _ := strconv.Atoi(arg)
			x.SetState(ratus.TaskState(i))
			s.state = st(int32(i))
		case "abstain":
			x.Abstain()
			s.state = st(0)
		case "archive":
			x.Archive()
			s.state = st(3)
		case "retry":
			x.Retry(arg)
			s.state = st(0)
			s.deferd = arg
		case "defer":
			x.SetDefer(arg)
			s.deferd = arg
		case "resched":
			t := parseT(arg, now)
			x.Reschedule(t.Abs.UTC())
			s.state = st(0)
			s.sched = t
		case "sched":
			t := parseT(arg, now)
			x.SetScheduled(t.Abs.UTC())
			s.sched = t
		case "payload":
			x.SetPayload(anyPayload(payload))
			s.payload = canonRaw(payload)
			s.hasPay = s.payload != ""
		case "force":
			x.Force()
			s.nonce = ""
		case "nonce":
			x.SetNonce(arg)
			s.nonce = arg
		case "reset":
			x.Reset()
			*s = commitSet{nonce: pl.ctx.Task.Nonce, state: st(2)}
		default:
			must(fmt.Errorf("unknown setting %q", d))
		}
	}
}

// ---------------------------------------------------------------- plain HTTP

func httpReq(op *Op, r *Req, body []byte) (method, path string) {
	q := url.PathEscape
	pre := "/v1"
	if op.V0 {
		pre = ""
	}
	tp := q(op.Topic)
	page := ""
	if !op.NoLimit {
		page = fmt.Sprintf("?limit=%d&offset=%d", op.Limit, op.Offset)
	}
	switch op.K {
	case "insert":
		return "POST", pre + "/topics/" + tp + "/tasks/" + q(r.ID)
	case "upsert":
		return "PUT", pre + "/topics/" + tp + "/tasks/" + q(r.ID)
	case "inserts":
		return "POST", pre + "/topics/" + tp + "/tasks"
	case "upserts":
		return "PUT", pre + "/topics/" + tp + "/tasks"
	case "get":
		return "GET", pre + "/topics/" + tp + "/tasks/" + q(r.ID)
	case "delete":
		return "DELETE", pre + "/topics/" + tp + "/tasks/" + q(r.ID)
	case "commit":
		return "PATCH", pre + "/topics//tasks/" + q(r.ID)
	case "poll":
		return "POST", pre + "/topics/" + tp + "/promises"
	case "claim":
		return "POST", pre + "/topics/" + tp + "/promises/" + q(r.ID)
	case "fclaim":
		return "PUT", pre + "/topics/" + tp + "/promises/" + q(r.ID)
	case "revoke":
		return "DELETE", pre + "/topics/" + tp + "/promises/" + q(r.ID)
	case "revokes":
		return "DELETE", pre + "/topics/" + tp + "/promises"
	case "getp":
		return "GET", pre + "/topics/" + tp + "/promises/" + q(r.ID)
	case "listp":
		return "GET", pre + "/topics/" + tp + "/promises" + page
	case "listt":
		return "GET", pre + "/topics/" + tp + "/tasks" + page
	case "topics":
		return "GET", pre + "/topics" + page
	case "topic":
		return "GET", pre + "/topics/" + tp
	case "deltopic":
		return "DELETE", pre + "/topics/" + tp
	case "deltasks":
		return "DELETE", pre + "/topics/" + tp + "/tasks"
	case "deltopics":
		return "DELETE", pre + "/topics"
	case "live":
		return "GET", pre + "/livez"
	case "healthz":
		return "GET", pre + "/healthz"
	case "ready":
		return "GET", pre + "/readyz"
	case "metrics":
		return "GET", pre + "/metrics"
	}
	must(fmt.Errorf("no plain form of %q", op.K))
	return
}

// execPlain sends the operation through net/http directly, so that forms the
// client library never uses (topics in the path, defaults, query parameters)
// are exercised and defects of the library and the server are told apart.
func (c *Client) execPlain(ctx context.Context, o *OpRec, op *Op, n *Node, now time.Time) {
	r := &Req{K: op.K, Topic: op.Topic, ID: c.symID(op.ID)}
	o.req = r
	if r.K == "healthz" {
		r.K = "live"
	}
	var body any
	switch op.K {
	case "insert", "upsert":
		pid := op.ID
		if pid == "" {
			pid = op.Tasks[0].ID
		}
		t, in := buildTask(&op.Tasks[0], pid, op.Topic, now)
		r.Tasks = []*TaskIn{in}
		r.ID = pid
		body = t
	case "inserts", "upserts":
		ts := []*ratus.Task{}
		for i := range op.Tasks {
			t, in := buildTask(&op.Tasks[i], "", op.Topic, now)
			ts = append(ts, t)
			r.Tasks = append(r.Tasks, in)
		}
		body = &ratus.Tasks{Data: ts}
	case "commit":
		r.Topic = ""
		r.NewTopic = op.Topic
		m := map[string]any{}
		r.Nonce = c.nonce(op.Nonce)
		if r.Nonce != "" {
			m["nonce"] = r.Nonce
		}
		if op.Topic != "" {
			m["topic"] = op.Topic
		}
		if op.State != nil {
			r.State = i32(op.State)
			m["state"] = *op.State
		}
		r.Sched = parseT(op.Sched, now)
		if r.Sched.Set {
			m["scheduled"] = r.Sched.ptr()
		}
		if op.Defer != "" {
			m["defer"] = op.Defer
			if !r.Sched.Set {
				d, err := time.ParseDuration(op.Defer)
				must(err)
				r.Sched = TimeIn{Set: true, IsR: true, Rel: d}
			}
		}
		if len(op.Payload) > 0 {
			m["payload"] = expand(op.Payload)
			r.Payload = canonRaw(op.Payload)
			r.HasPay = r.Payload != ""
		}
		if len(m) > 0 {
			body = m
		}
	case "poll", "claim", "fclaim":
		p := promiseOf(op, r, now)
		if !op.Query {
			body = p
		}
	case "listp", "listt", "topics":
		r.Limit, r.Offset, r.NoLimit = op.Limit, op.Offset, op.NoLimit
		if op.NoLimit {
			r.Limit, r.Offset = 0, 0
		}
	}
	method, path := httpReq(op, r, nil)
	if op.Query {
		v := url.Values{}
		if op.Consumer != "" {
			v.Set("consumer", op.Consumer)
		}
		if op.Timeout != "" {
			v.Set("timeout", op.Timeout)
		}
		if r.Deadline.Set && !r.Deadline.IsR {
			v.Set("deadline", r.Deadline.Abs.UTC().Format(time.RFC3339Nano))
		}
		path += "?" + v.Encode()
	}
	var rd io.Reader
	if body != nil {
		b, err := json.Marshal(body)
		must(err)
		rd = bytes.NewReader(b)
	}
	c.doHTTP(ctx, o, n, method, path, rd)
	if o.err == nil && o.status < 400 && (op.K == "poll" || op.K == "claim" || op.K == "fclaim") {
		if t, ok := o.resp.(*ratus.Task); ok {
			c.claims = append(c.claims, claim{t.Nonce, t.ID})
		}
	}
}

func (c *Client) doHTTP(ctx context.Context, o *OpRec, n *Node, method, path string, body io.Reader) {
	h := c.hc[n.idx]
	if h == nil {
		h = &http.Client{Transport: http.DefaultTransport.(*http.Transport).Clone(), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		c.hc[n.idx] = h
	}
	req, err := http.NewRequestWithContext(ctx, method, fmt.Sprintf("http://%s:%d%s", n.host, n.port(), path), body)
	must(err)
	res, err := h.Do(req)
	if err != nil {
		o.err = err
		return
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		o.err = err
		return
	}
	o.rawBody = b
	c.decodePlain(o, res.StatusCode, b)
}

var errStatus = errors.New("http status")

func (c *Client) decodePlain(o *OpRec, status int, b []byte) {
	w := c.w
	o.status = status
	if status >= 300 {
		var e ratus.Error
		if err := json.Unmarshal(b, &e); err != nil || (e.Error.Code != status && o.req.K != "any" && status >= 400) {
			if o.req.K != "any" && o.gate == nil {
				w.violate([]string{"C20", "C18"}, "error-body", "%s answered status %d with a body that is not the matching error document: %q", reqStr(o.req), status, short(string(b)))
			}
		}
		o.err = fmt.Errorf("%w %d", errStatus, status)
		return
	}
	var v any
	switch o.req.K {
	case "insert", "upsert", "inserts", "upserts":
		v = &ratus.Updated{}
	case "delete", "revoke", "revokes", "deltopic", "deltasks", "deltopics":
		v = &ratus.Deleted{}
	case "get", "commit", "poll", "claim", "fclaim":
		v = &ratus.Task{}
	case "getp":
		v = &ratus.Promise{}
	case "topic":
		v = &ratus.Topic{}
	case "listt":
		v = &ratus.Tasks{}
	case "listp":
		v = &ratus.Promises{}
	case "topics":
		v = &ratus.Topics{}
	default:
		return
	}
	if err := json.Unmarshal(b, v); err != nil {
		w.violate([]string{"C20", "C07"}, "bad-answer", "%s answered %d with %q: %v", reqStr(o.req), status, short(string(b)), err)
		o.err = err
		return
	}
	switch x := v.(type) {
	case *ratus.Tasks:
		if x.Data == nil {
			w.violate([]string{"C10"}, "null-list", "%s answered a null list: %s", reqStr(o.req), b)
		}
		v = x.Data
	case *ratus.Promises:
		v = x.Data
	case *ratus.Topics:
		v = x.Data
	}
	o.resp = v
}

// --------------------------------------------------------- hooks into net/http

func opHeader(r any) string {
	req := r.(*http.Request)
	inc := curInc()
	if inc == nil || inc.kind == "node" {
		return ""
	}
	w := W
	id := curOp()
	if inc.kind == "sub" {
		o := w.dynOp(inc, req)
		id = o.id
		verifhook.SetTag(mkTag(inc, id))
	}
	if id == 0 || id >= len(w.ops) {
		return ""
	}
	o := w.ops[id]
	o.sent++
	return strconv.Itoa(id)
}

func onResponse(op string, status int) {
	id, err := strconv.Atoi(op)
	if err != nil || W == nil || id <= 0 || id >= len(W.ops) {
		return
	}
	o := W.ops[id]
	o.status = status
	if o.sub != nil {
		o.sub.answered(o)
	}
}

func serveStart(op string, r any) func() {
	inc := curInc()
	if inc == nil || inc.kind != "node" {
		return func() {}
	}
	w := W
	id, err := strconv.Atoi(op)
	if err != nil || id <= 0 || id >= len(w.ops) {
		id = 0
	}
	verifhook.SetTag(mkTag(inc, id))
	inc.booting = false
	var s *ServeRec
	if id > 0 {
		s = &ServeRec{inc: inc, seq: w.ev(), at: w.now()}
		o := w.ops[id]
		o.serves = append(o.serves, s)
		inc.inflight[id] = true
		if w.verbose {
			w.logf("%s serves op%d", inc.host, id)
		}
	}
	w.count("serve")
	forcePark(ptServe)
	return func() {
		if inc.dead {
			select {}
		}
		if s != nil {
			s.ended = true
			s.endSeq = w.ev()
			s.end = w.now()
			delete(inc.inflight, id)
			w.orc.served(w.ops[id], s)
		}
		forcePark(ptServeEnd)
		verifhook.SetTag(mkTag(inc, 0))
	}
}

// ------------------------------------------------------------------- raw bytes

// execRaw writes bytes on its own connection.
func (c *Client) execRaw(ctx context.Context, o *OpRec, op *Op, n *Node) {
	w := c.w
	rs := op.Raw
	o.req = parseHTTP(rs.Method, rs.Path, []byte(rs.Body), n)
	switch rs.Expect {
	case "bad", "any", "404":
		o.req = &Req{K: rs.Expect, Expect: rs.Expect}
	}
	if rs.Cut > 0 || rs.Bytes != "" {
		o.req = &Req{K: "cut", Expect: "bad"}
		if rs.Bytes != "" {
			o.req.K = "any"
		}
	}
	nc, err := w.net.dial(c.inc, fmt.Sprintf("%s:%d", n.host, n.port()))
	if err != nil {
		o.err = err
		return
	}
	stop := context.AfterFunc(ctx, func() { nc.Close() })
	defer stop()
	defer nc.Close()
	o.sent++
	var b bytes.Buffer
	body := rs.Body
	if rs.Bytes != "" {
		b.WriteString(strings.ReplaceAll(rs.Bytes, "OPID", strconv.Itoa(o.id)))
	} else {
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nX-Sim-Op: %d\r\n", rs.Method, rs.Path, n.host, o.id)
		for k, v := range rs.Headers {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
		if rs.Chunked {
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		} else if body != "" || rs.Cut > 0 {
			fmt.Fprintf(&b, "Content-Length: %d\r\nContent-Type: application/json\r\n\r\n", len(body))
		} else {
			b.WriteString("\r\n")
		}
		send := body
		if rs.Cut > 0 && rs.Cut < len(body) {
			send = body[:rs.Cut]
			w.injected["request-cut"]++
		}
		if rs.Chunked {
			h := len(send) / 2
			if h > 0 { // a chunk of no bytes would end the body
				fmt.Fprintf(&b, "%x\r\n%s\r\n", h, send[:h])
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(send)-h, send[h:])
			if rs.Cut == 0 {
				b.WriteString("0\r\n\r\n")
			}
		} else {
			b.WriteString(send)
		}
	}
	if _, err := nc.Write(b.Bytes()); err != nil {
		o.err = err
		return
	}
	if rs.Cut > 0 && !rs.Hang {
		if rs.HalfClose {
			nc.CloseWrite()
		} else {
			nc.Close()
			o.err = net_closed
			o.canceled = true
			return
		}
	}
	br := newConnReader(nc)
	res, err := http.ReadResponse(br, &http.Request{Method: orS(rs.Method, "GET")})
	if err != nil {
		o.err = err
		return
	}
	rb, err := io.ReadAll(res.Body)
	if err != nil {
		o.err = err
		return
	}
	o.rawBody = rb
	c.decodePlain(o, res.StatusCode, rb)
	if t, ok := o.resp.(*ratus.Task); ok && o.err == nil && (o.req.K == "poll" || o.req.K == "claim" || o.req.K == "fclaim") {
		c.claims = append(c.claims, claim{t.Nonce, t.ID})
	}
}

var net_closed = errors.New("client closed the connection")

func orS(a, b string) string {
	if a == "" {
		return b
	}
	return a
}
