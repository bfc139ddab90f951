package main

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
)

// Oracle judges what the program does against the reference model.
type Oracle struct {
	w          *World
	healedAt   time.Time
	netFault   bool
	consumed   map[string]int // expected metrics
	committedN map[string]int
	produced   int
	noExact    bool
	clean      bool // no kill, no mongo trouble: metrics are exact
	panics     int
	evals      map[string]int // property -> judgements made
}

func newOracle(w *World) *Oracle {
	return &Oracle{w: w, consumed: map[string]int{}, committedN: map[string]int{}, evals: map[string]int{}}
}

func (k *Oracle) eval(ps ...string) {
	for _, p := range ps {
		k.evals[p]++
	}
}

func (k *Oracle) bad(s *Store, props []string, rule, f string, a ...any) {
	p := append([]string(nil), props...)
	if s != nil && s.engine == "mongodb" {
		p = append(p, "C19")
	}
	k.w.violate(p, rule, f, a...)
}

func ps(x ...string) []string { return x }

// ----------------------------------------------------------------- time rules

const maxDur = time.Duration(1<<63 - 1)

// window gives the interval in which the serving clock read "now" for op o.
func (k *Oracle) window(o *OpRec, n *Node, to time.Time) (lo, hi time.Time) {
	from := o.invAt
	for _, s := range o.serves {
		if s.inc.node == n.idx && s.at.After(from) && !s.ended {
			from = s.at
		}
	}
	return from.Add(n.minSkew), to.Add(n.maxSkew)
}

func inWin(t *time.Time, lo, hi time.Time, rel, prec time.Duration) bool {
	if t == nil {
		return false
	}
	a, b := lo.Add(rel), hi.Add(rel)
	a, b = *floorTo(&a, prec), *floorTo(&b, prec)
	x := *floorTo(t, prec)
	return !x.Before(a) && !x.After(b)
}

func checkTime(in TimeIn, t *time.Time, lo, hi time.Time, prec time.Duration) bool {
	if !in.Set {
		return t == nil
	}
	if in.IsR {
		return inWin(t, lo, hi, in.Rel, prec)
	}
	return eqTP(&in.Abs, t, prec)
}

// matchIn compares a stored task with the one submitted.
func matchIn(in *TaskIn, a *TaskV, lo, hi time.Time, prec time.Duration) (d []string) {
	add := func(c bool, n string) {
		if c {
			d = append(d, n)
		}
	}
	v := &in.V
	add(v.ID != a.ID, "id")
	add(v.Topic != a.Topic, "topic")
	add(v.State != a.State, "state")
	add(v.Nonce != a.Nonce, "nonce")
	add(v.Producer != a.Producer, "producer")
	add(v.Consumer != a.Consumer, "consumer")
	if in.ProducedNow {
		add(!inWin(a.Produced, lo, hi, 0, prec), "produced")
	} else {
		add(!eqTP(v.Produced, a.Produced, prec), "produced")
	}
	add(!checkTime(in.Sched, a.Scheduled, lo, hi, prec), "scheduled")
	add(!eqTP(v.Consumed, a.Consumed, prec), "consumed")
	add(!eqTP(v.Deadline, a.Deadline, prec), "deadline")
	add(v.Payload != a.Payload, "payload")
	return d
}

func msOf(t *time.Time) int64 { return t.UnixMilli() }

// due reports whether t is due at clock c.
func due(t *TaskV, c time.Time) bool { return t.Scheduled != nil && !t.Scheduled.After(c) }

// ------------------------------------------------------------------- commits

func (w *World) opOf(id int) *OpRec {
	if id <= 0 || id >= len(w.ops) {
		return nil
	}
	return w.ops[id]
}

// committedVer judges one atomic change of a store and appends it.
func (k *Oracle) committedVer(s *Store, v *Ver) {
	w := k.w
	before := s.state()
	o := w.opOf(v.op)
	var n *Node
	if v.inc != nil && v.inc.node >= 0 {
		n = w.nodes[v.inc.node]
	}
	if o != nil {
		o.vers = append(o.vers, v)
	}
	for _, c := range v.changes {
		if c.after != nil && c.after.ID != c.id {
			k.bad(s, ps("C06"), "id", "task stored under %q has ID %q", c.id, c.after.ID)
		}
	}
	if o != nil && o.final && len(v.changes) > 0 {
		k.bad(s, ps("C20", "C07"), "late-change", "op%d %s was answered (status %d) before it changed %s", o.id, reqStr(o.req), o.status, changesStr(v.changes))
	}
	switch {
	case v.kind == "ttl":
		for _, c := range v.changes {
			k.checkExpire(s, n, v, c)
		}
	case o == nil:
		k.background(s, n, v, before)
	default:
		k.opCommit(s, n, v, o, before)
	}
	s.push(v)
}

func changesStr(cs []Change) string {
	var o []string
	for i, c := range cs {
		if i == 4 {
			o = append(o, "…")
			break
		}
		o = append(o, c.String())
	}
	return strings.Join(o, "; ")
}

func (k *Oracle) checkExpire(s *Store, n *Node, v *Ver, c Change) {
	k.eval("C11", "C06")
	b := c.before
	if c.after != nil || b == nil {
		k.bad(s, ps("C06", "C11"), "expiry-change", "expiry changed a task: %s", c)
		return
	}
	if b.State != 2 || b.Consumed == nil {
		k.bad(s, ps("C11", "C06"), "expired-wrong", "a task that is not an expired completed one was deleted by expiry: %s", b)
		return
	}
	if s.engine == "memdb" {
		hi := v.at.Add(n.maxSkew)
		if b.Consumed.Add(n.retention()).After(hi) {
			k.bad(s, ps("C11", "C06"), "expired-early", "task deleted %v before its retention period (%v) elapsed: %s", b.Consumed.Add(n.retention()).Sub(hi), n.retention(), b)
		}
	}
	if s.engine == "mongodb" {
		// The retention configured by the instances that initialised the collection.
		lo := k.w.mongo.minRetention
		if lo >= 0 && b.Consumed.Add(lo).After(v.at) {
			k.bad(s, ps("C11", "C23"), "expired-early", "task expired %v before the configured retention %v: %s", b.Consumed.Add(lo).Sub(v.at), lo, b)
		}
	}
}

// background judges a change that no request made.
func (k *Oracle) background(s *Store, n *Node, v *Ver, before State) {
	w := k.w
	if n == nil {
		k.bad(s, ps("C06"), "unexplained", "unexplained change %s", changesStr(v.changes))
		return
	}
	hi := v.at.Add(n.maxSkew)
	recovered, expired := 0, 0
	k.eval("C22")
	// A database may still execute what a dead instance sent before.
	if n.chore() == 0 {
		k.bad(s, ps("C22"), "chore-disabled", "background jobs ran on instance %s although they are disabled: %s", n.host, changesStr(v.changes))
	}
	if d := v.at.Sub(v.inc.started); !n.cfg.Random && d < n.initialDelay() {
		k.bad(s, ps("C22"), "chore-too-soon", "background jobs ran on instance %s %v after its start although the initial delay is %v: %s", n.host, d, n.initialDelay(), changesStr(v.changes))
	}
	for _, c := range v.changes {
		b, a := c.before, c.after
		switch {
		case b != nil && a != nil && b.State == 1:
			k.eval("C05")
			d := diffFields(b, a)
			if x := without(d, "state", "nonce"); len(x) > 0 {
				k.bad(s, ps("C05", "C06"), "recover-fields", "background job changed %v of a task: %s", x, c)
			}
			if a.State != 0 {
				k.bad(s, ps("C05", "C06"), "recover-state", "background job moved an active task to state %d: %s", a.State, c)
			}
			if a.Nonce != "" {
				k.bad(s, ps("C05", "C04"), "recover-nonce", "recovered task keeps a nonce: %s", c)
			}
			if b.Deadline == nil || b.Deadline.After(hi) {
				k.bad(s, ps("C05", "C01", "C06"), "recover-early", "background job recovered a claim %s before its deadline: %s (clock %s)", early(b.Deadline, hi), c, fmtT(&hi))
			}
			if b.Deadline != nil && n.maxSkew == n.minSkew && hi.Sub(*b.Deadline) < 3*time.Second {
				w.probe("recovered-promptly")
			}
			if late := k.recoveryDelay(s, n, v, b); late > 2*time.Second+n.stallTotal {
				k.bad(s, ps("C05", "C22"), "recovered-late", "a claim was recovered %v after the last moment at which a background job should have run: %s (interval %v, initial delay %v, started %v before)", late, c, n.chore(), n.initialDelay(), v.at.Sub(v.inc.started))
			}
			recovered++
		case b != nil && a == nil:
			if s.engine == "mongodb" {
				k.bad(s, ps("C06", "C11"), "background-delete", "background job deleted %s", b)
				break
			}
			k.checkExpire(s, n, v, c)
			expired++
		default:
			k.bad(s, ps("C06", "C05"), "background-change", "a change no request asked for: %s", c)
		}
	}
	w.probes["recovered"] += recovered
	w.probes["expired"] += expired
	if recovered+expired > 0 || len(v.changes) == 0 {
		n.choreSeen = append(n.choreSeen, v.at)
	}
	if s.engine == "memdb" {
		k.choreComplete(s, n, v, before, recovered)
	}
}

func early(d *time.Time, hi time.Time) string {
	if d == nil {
		return "without a deadline,"
	}
	return d.Sub(hi).String()
}

// choreComplete: a run that recovers or expires anything handles everything
// that was overdue when it began.
func (k *Oracle) choreComplete(s *Store, n *Node, v *Ver, before State, recovered int) {
	w := k.w
	k.eval("C05", "C11")
	lo := v.at
	if t, ok := s.txnAt[mkTag(v.inc, 0)]; ok && t.Before(lo) {
		lo = t
	}
	lo = lo.Add(n.minSkew)
	_ = w
	for _, id := range before.ids() {
		b := before[id]
		a := v.state[id]
		if b.State == 1 && b.Deadline != nil && b.Deadline.Before(lo) && eqTask(a, b) {
			over := lo.Sub(*b.Deadline)
			slack := n.chore() + 2*time.Second + n.stallTotal
			if (recovered > 0 && over > time.Millisecond) || (over > slack && lo.Sub(n.inc.upAt) > slack+n.initialDelay() && n.lostClock(b) > slack && k.activeSince(s, id, v, b) > slack) {
				k.bad(s, ps("C05", "C06", "C22"), "not-recovered", "background job left a claim that timed out %v ago: %s", over, b)
			}
		}
		if b.State == 2 && b.Consumed != nil && eqTask(a, b) {
			over := lo.Sub(b.Consumed.Add(n.retention()))
			slack := n.chore() + 2*time.Second + n.stallTotal
			if over > slack && lo.Sub(n.inc.upAt) > slack+n.initialDelay() && k.activeSince(s, id, v, b) > slack {
				k.bad(s, ps("C11", "C22"), "not-expired", "background job left a completed task %v after its retention period: %s", over, b)
			}
		}
	}
}

// activeSince is how long the task has had its present value.
func (k *Oracle) activeSince(s *Store, id string, v *Ver, b *TaskV) time.Duration {
	for i := s.head(); i >= 0; i-- {
		if !eqTask(s.versions[i].state[id], b) {
			return v.at.Sub(s.versions[i+1].at)
		}
	}
	return v.at.Sub(s.versions[0].at)
}

// recoveryDelay is by how much a recovery came after the first background job
// run that the configuration promises once the claim had timed out, where
// nothing else can have held it up.
func (k *Oracle) recoveryDelay(s *Store, n *Node, v *Ver, b *TaskV) time.Duration {
	w := k.w
	if len(w.nodes) > 1 || n.minSkew != n.maxSkew || b.Deadline == nil || n.diskEverBad || n.chore() == 0 || v.inc != n.inc || n.inc.upAt.IsZero() {
		return 0
	}
	if s.engine == "mongodb" && (len(w.mongo.bad) > 0 || w.injected["net-delay"] > 0 || k.netFaulty(time.Time{})) {
		return 0
	}
	ready := b.Deadline.Add(-n.maxSkew)
	if t := v.at.Add(-k.activeSince(s, b.ID, v, b)); t.After(ready) {
		ready = t
	}
	due := ready.Add(n.chore())
	if first := n.inc.upAt.Add(n.initialDelay()); first.After(due) {
		k.w.probe("recovered-at-start")
		due = first
	}
	return v.at.Sub(due)
}

func (n *Node) initialDelay() time.Duration {
	if n.cfg.DefaultChore {
		return 0
	}
	return time.Duration(n.cfg.DelayMS) * time.Millisecond
}

// lostClock: how long ago the clock last jumped.
func (n *Node) lostClock(b *TaskV) time.Duration {
	if n.jumpedAt.IsZero() {
		return maxDur
	}
	return n.w.now().Sub(n.jumpedAt)
}

// opCommit judges a change made while serving request o.
func (k *Oracle) opCommit(s *Store, n *Node, v *Ver, o *OpRec, before State) {
	if s.engine == "mongodb" {
		k.eval("C19")
	}
	r := o.req
	if r == nil {
		if len(v.changes) > 0 {
			k.bad(s, ps("C06"), "unexplained", "op%d changed %s", o.id, changesStr(v.changes))
		}
		return
	}
	lo, hi := k.window(o, n, v.at)
	mem := s.engine == "memdb"
	eff := 0
	for _, x := range o.vers {
		if len(x.changes) > 0 {
			eff++
		}
	}
	single := func(props []string) bool {
		if len(v.changes) > 1 {
			k.bad(s, append(props, "C06"), "too-many", "op%d %s changed several tasks: %s", o.id, reqStr(r), changesStr(v.changes))
			return false
		}
		if eff > 1 {
			k.bad(s, append(props, "C07"), "twice", "op%d %s took effect more than once: now %s", o.id, reqStr(r), changesStr(v.changes))
		}
		return len(v.changes) == 1
	}
	foreign := func(props ...string) {
		k.bad(s, append(props, "C06"), "foreign-change", "op%d %s changed something it was not aimed at: %s", o.id, reqStr(r), changesStr(v.changes))
	}
	switch r.K {
	case "insert":
		k.eval("C08", "C07", "C06")
		if !single(ps("C08")) {
			return
		}
		c := v.changes[0]
		if c.id != r.ID {
			foreign("C08", "C07")
			return
		}
		if c.before != nil {
			k.bad(s, ps("C08", "C07", "C06"), "insert-overwrote", "op%d %s changed an existing task: %s", o.id, reqStr(r), c)
			return
		}
		if d := matchIn(r.Tasks[0], c.after, lo, hi, s.prec); len(d) > 0 {
			k.bad(s, storedProps(d), "stored-differs", "op%d %s stored a task that differs in %v: submitted %s (scheduled %s) stored %s", o.id, reqStr(r), d, &r.Tasks[0].V, timeInStr(r.Tasks[0].Sched), c.after)
		}
	case "upsert":
		k.eval("C08", "C07", "C06")
		fallback := !mem && k.w.mongo.cfg.Shard == "topic"
		if fallback && len(v.changes) == 1 && v.changes[0].id == r.ID && v.changes[0].after == nil {
			return // delete half of the documented fallback
		}
		if len(v.changes) > 1 || (eff > 1 && !fallback) {
			single(ps("C08"))
			return
		}
		if len(v.changes) == 0 {
			return
		}
		c := v.changes[0]
		if c.id != r.ID || c.after == nil {
			foreign("C08", "C07")
			return
		}
		if d := matchIn(r.Tasks[0], c.after, lo, hi, s.prec); len(d) > 0 {
			k.bad(s, storedProps(d), "stored-differs", "op%d %s stored a task that differs in %v: submitted %s (scheduled %s) stored %s", o.id, reqStr(r), d, &r.Tasks[0].V, timeInStr(r.Tasks[0].Sched), c.after)
		}
	case "inserts", "upserts":
		k.batch(s, n, v, o, before, lo, hi, eff)
	case "delete":
		k.eval("C07", "C06")
		if !single(ps("C07")) {
			return
		}
		if c := v.changes[0]; c.id != r.ID || c.after != nil {
			foreign("C07")
		}
	case "deltasks", "deltopic", "deltopics":
		k.eval("C10", "C06")
		for _, c := range v.changes {
			if c.after != nil || c.before == nil || (r.K != "deltopics" && c.before.Topic != r.Topic) {
				k.bad(s, ps("C10", "C06"), "bulk-delete-foreign", "op%d %s: %s", o.id, reqStr(r), c)
			}
		}
		if mem {
			k.eval("C09")
			for _, id := range v.state.ids() {
				if t := v.state[id]; r.K == "deltopics" || t.Topic == r.Topic {
					k.bad(s, ps("C10", "C09"), "bulk-delete-partial", "op%d %s left %s", o.id, reqStr(r), t)
				}
			}
			if eff > 1 {
				k.bad(s, ps("C09"), "bulk-delete-steps", "op%d %s took effect in %d steps", o.id, reqStr(r), eff)
			}
		}
	case "poll", "claim", "fclaim":
		k.eval("C01", "C07")
		if !single(ps("C01")) {
			return
		}
		k.claimed(s, n, v, o, before, lo, hi)
	case "revoke":
		k.eval("C07", "C06")
		if !single(ps("C07")) {
			return
		}
		c := v.changes[0]
		if c.id != r.ID {
			foreign("C07", "C01")
			return
		}
		k.revoked(s, o, c)
	case "revokes":
		k.eval("C10", "C06")
		for _, c := range v.changes {
			if c.before == nil || c.before.Topic != r.Topic {
				foreign("C10", "C01")
				return
			}
			k.revoked(s, o, c)
		}
		if mem {
			k.eval("C09")
			for _, id := range v.state.ids() {
				if t := v.state[id]; t.State == 1 && t.Topic == r.Topic {
					k.bad(s, ps("C10", "C09"), "bulk-revoke-partial", "op%d %s left %s", o.id, reqStr(r), t)
				}
			}
			if eff > 1 {
				k.bad(s, ps("C09"), "bulk-revoke-steps", "op%d %s took effect in %d steps", o.id, reqStr(r), eff)
			}
		}
	case "commit":
		k.eval("C04", "C07", "C06")
		k.commitOp(s, n, v, o, before, lo, hi, eff)
	default:
		if len(v.changes) > 0 {
			k.eval("C18", "C20")
			p := ps("C06", "C20")
			switch r.K {
			case "bad", "cut", "any", "404":
				p = ps("C18", "C20")
			case "get", "listt", "listp", "getp", "topics", "topic":
				p = ps("C07", "C10", "C06")
			}
			k.bad(s, p, "read-changed", "op%d %s (%s) changed %s", o.id, reqStr(r), rawOf(o), changesStr(v.changes))
		}
	}
}

func rawOf(o *OpRec) string {
	if o.op != nil && o.op.Raw != nil {
		x := o.op.Raw
		return short(fmt.Sprintf("%s %s body=%q cut=%d bytes=%q", x.Method, x.Path, x.Body, x.Cut, x.Bytes))
	}
	return ""
}

func timeInStr(t TimeIn) string {
	if !t.Set {
		return "-"
	}
	if t.IsR {
		return "now+" + t.Rel.String()
	}
	return fmtT(&t.Abs)
}

func storedProps(d []string) []string { return ps("C08", "C06", "C07") }

// claimed judges a poll or claim that took effect.
func (k *Oracle) claimed(s *Store, n *Node, v *Ver, o *OpRec, before State, lo, hi time.Time) {
	w := k.w
	r := o.req
	c := v.changes[0]
	b, a := c.before, c.after
	if b == nil || a == nil {
		k.bad(s, ps("C01", "C06"), "claim-created", "op%d %s: %s", o.id, reqStr(r), c)
		return
	}
	if r.K != "poll" && c.id != r.ID {
		k.bad(s, ps("C01", "C06", "C07"), "claim-foreign", "op%d %s claimed another task: %s", o.id, reqStr(r), c)
		return
	}
	if r.K != "fclaim" && b.State != 0 {
		k.bad(s, ps("C01", "C07"), "claim-not-pending", "op%d %s claimed a task in state %d: %s", o.id, reqStr(r), b.State, c)
	}
	if r.K == "poll" {
		k.eval("C02")
		if b.Topic != r.Topic {
			k.bad(s, ps("C02", "C06", "C01"), "poll-topic", "op%d polled topic %q but got %s", o.id, r.Topic, b)
		}
		h := hi
		if s.prec > 1 {
			h = *floorTo(&h, s.prec)
		}
		if b.Scheduled != nil && b.Scheduled.After(h) {
			k.bad(s, ps("C02", "C06"), "poll-early", "op%d polled a task %v before its scheduled time: %s", o.id, b.Scheduled.Sub(h), b)
		}
		if x := k.earlier(s, o, before, b); x != nil {
			k.bad(s, ps("C02"), "poll-order", "op%d polled %s although %s was due earlier", o.id, b, x)
		}
	}
	if d := without(diffFields(b, a), "state", "nonce", "consumer", "consumed", "deadline"); len(d) > 0 {
		k.bad(s, ps("C01", "C06"), "claim-fields", "op%d %s also changed %v: %s", o.id, reqStr(r), d, c)
	}
	if a.State != 1 {
		k.bad(s, ps("C01"), "claim-state", "op%d %s left the task in state %d", o.id, reqStr(r), a.State)
	}
	if a.Nonce == "" {
		k.bad(s, ps("C01", "C04"), "claim-no-nonce", "op%d %s gave no nonce: %s", o.id, reqStr(r), a)
	} else if at, ok := s.nonces[a.Nonce]; ok {
		k.bad(s, ps("C01", "C04"), "claim-nonce-reused", "op%d %s gave nonce %q already used at version %d", o.id, reqStr(r), a.Nonce, at)
	} else {
		for _, t := range w.stores {
			if t != s {
				if _, ok := t.nonces[a.Nonce]; ok {
					k.bad(s, ps("C01", "C04"), "claim-nonce-reused", "op%d %s gave nonce %q already given by another instance", o.id, reqStr(r), a.Nonce)
				}
			}
		}
	}
	if a.Nonce != "" && len(a.Nonce) < 8 {
		k.bad(s, ps("C01", "C04"), "claim-nonce-weak", "op%d %s gave nonce %q, which a few thousand claims suffice to repeat", o.id, reqStr(r), a.Nonce)
	}
	if a.Consumer != r.Consumer {
		k.bad(s, ps("C01", "C07"), "claim-consumer", "op%d %s recorded consumer %q instead of %q", o.id, reqStr(r), a.Consumer, r.Consumer)
	}
	if !inWin(a.Consumed, lo, hi, 0, s.prec) {
		k.bad(s, ps("C01", "C11"), "claim-consumed", "op%d %s recorded claim time %s outside [%s, %s]", o.id, reqStr(r), fmtT(a.Consumed), fmtT(&lo), fmtT(&hi))
	}
	if !checkTime(r.Deadline, a.Deadline, lo, hi, s.prec) {
		k.bad(s, ps("C01", "C05"), "claim-deadline", "op%d %s recorded deadline %s instead of %s (now in [%s, %s])", o.id, reqStr(r), fmtT(a.Deadline), timeInStr(r.Deadline), fmtT(&lo), fmtT(&hi))
	}
	w.probe("claims-" + r.K)
}

// earlier finds a pending task of the topic that should have been preferred.
func (k *Oracle) earlier(s *Store, o *OpRec, before State, b *TaskV) *TaskV {
	check := func(st State) *TaskV {
		x := st[b.ID]
		if x == nil || x.Scheduled == nil || x.State != 0 {
			return b
		}
		for _, id := range st.ids() {
			t := st[id]
			if t.State == 0 && t.Topic == b.Topic && t.ID != b.ID && t.Scheduled != nil && msOf(t.Scheduled) < msOf(x.Scheduled) {
				return t
			}
		}
		return nil
	}
	first := check(before)
	if first == nil || s.engine == "memdb" {
		return first
	}
	for i := s.head(); i >= o.invVer; i-- {
		if check(s.versions[i].state) == nil {
			return nil
		}
	}
	return first
}

func (k *Oracle) revoked(s *Store, o *OpRec, c Change) {
	b, a := c.before, c.after
	if b == nil || a == nil || b.State != 1 || a.State != 0 || a.Nonce != "" || len(without(diffFields(b, a), "state", "nonce")) > 0 {
		k.bad(s, ps("C07", "C04", "C10", "C06"), "revoke-wrong", "op%d %s: %s", o.id, reqStr(o.req), c)
	}
	k.w.probe("revoked")
}

func (k *Oracle) commitOp(s *Store, n *Node, v *Ver, o *OpRec, before State, lo, hi time.Time, eff int) {
	r := o.req
	if len(v.changes) > 1 {
		k.bad(s, ps("C04", "C06"), "too-many", "op%d %s changed several tasks: %s", o.id, reqStr(r), changesStr(v.changes))
		return
	}
	if len(v.changes) == 0 {
		return
	}
	c := v.changes[0]
	b, a := c.before, c.after
	if c.id != r.ID || a == nil || b == nil {
		k.bad(s, ps("C04", "C06"), "commit-foreign", "op%d %s: %s", o.id, reqStr(r), c)
		return
	}
	if eff > 1 {
		k.bad(s, ps("C04", "C07"), "commit-twice", "op%d %s took effect %d times", o.id, reqStr(r), eff)
	}
	if r.Nonce != "" && b.Nonce != r.Nonce {
		p := ps("C04", "C07", "C14")
		if o.ctxID != nil || o.sub != nil {
			p = append(p, "C17")
		}
		k.bad(s, p, "stale-commit", "op%d %s was applied although the task's nonce was %q: %s", o.id, reqStr(r), b.Nonce, c)
	}
	exp := *b
	exp.Nonce = ""
	if r.NewTopic != "" {
		exp.Topic = r.NewTopic
	}
	exp.State = 2
	if r.State != nil {
		exp.State = *r.State
	}
	if r.HasPay {
		exp.Payload = r.Payload
	}
	d := without(diffFields(&exp, a), "scheduled")
	if r.Sched.Set {
		if !checkTime(r.Sched, a.Scheduled, lo, hi, s.prec) {
			d = append(d, "scheduled")
		}
	} else if !eqT(b.Scheduled, a.Scheduled) {
		d = append(d, "scheduled")
	}
	if len(d) > 0 {
		p := ps("C04", "C07", "C06")
		if o.ctxID != nil || o.sub != nil {
			p = append(p, "C17")
		}
		k.bad(s, p, "commit-fields", "op%d %s (sched %s) differs in %v: expected %s got %s", o.id, reqStr(r), timeInStr(r.Sched), d, &exp, a)
	}
	k.w.probe("commits")
}

// batchIndex finds the elements of a batch by ID.
type batchIndex struct {
	last  map[string]*TaskIn
	all   map[string][]*TaskIn
	order []string
}

func newBatchIndex(r *Req) *batchIndex {
	x := &batchIndex{map[string]*TaskIn{}, map[string][]*TaskIn{}, nil}
	for _, t := range r.Tasks {
		if _, ok := x.last[t.V.ID]; !ok {
			x.order = append(x.order, t.V.ID)
		}
		if r.K == "upserts" || x.last[t.V.ID] == nil {
			x.last[t.V.ID] = t
		}
		x.all[t.V.ID] = append(x.all[t.V.ID], t)
	}
	return x
}

func (k *Oracle) batch(s *Store, n *Node, v *Ver, o *OpRec, before State, lo, hi time.Time, eff int) {
	r := o.req
	k.eval("C08", "C06")
	if s.engine == "memdb" {
		k.eval("C09")
	}
	if r.index == nil {
		r.index = newBatchIndex(r)
	}
	last, all, order := r.index.last, r.index.all, r.index.order
	mongo := s.engine == "mongodb"
	fallback := mongo && k.w.mongo.cfg.Shard == "topic"
	for _, c := range v.changes {
		in := last[c.id]
		if in == nil {
			k.bad(s, ps("C06", "C09", "C08"), "batch-foreign", "op%d %s changed a task outside the batch: %s", o.id, reqStr(r), c)
			continue
		}
		if r.K == "inserts" && c.before != nil {
			k.bad(s, ps("C08", "C06", "C09"), "batch-overwrote", "op%d %s changed an existing task: %s", o.id, reqStr(r), c)
			continue
		}
		if c.after == nil {
			if !(fallback && r.K == "upserts") {
				k.bad(s, ps("C06", "C08"), "batch-deleted", "op%d %s deleted %s", o.id, reqStr(r), c.before)
			}
			continue
		}
		d := matchIn(in, c.after, lo, hi, s.prec)
		if mongo {
			for _, x := range all[c.id] {
				if len(matchIn(x, c.after, lo, hi, s.prec)) == 0 {
					d = nil
				}
			}
		}
		if len(d) > 0 {
			k.bad(s, ps("C08", "C06", "C09"), "stored-differs", "op%d %s stored a task that differs in %v: submitted %s (scheduled %s) stored %s", o.id, reqStr(r), d, &in.V, timeInStr(in.Sched), c.after)
		}
	}
	if !mongo {
		if eff > 1 {
			k.bad(s, ps("C09"), "batch-steps", "op%d %s took effect in %d steps", o.id, reqStr(r), eff)
		}
		for _, id := range order {
			a := v.state[id]
			if a == nil {
				k.bad(s, ps("C09", "C08", "C06"), "batch-partial", "op%d %s did not store %q", o.id, reqStr(r), id)
				continue
			}
			if r.K == "upserts" {
				if d := matchIn(last[id], a, lo, hi, s.prec); len(d) > 0 {
					k.bad(s, ps("C09", "C08", "C06"), "batch-partial", "op%d %s left %q differing in %v", o.id, reqStr(r), id, d)
				}
			}
		}
	}
}

// mutatedOutside: the database content changed between transactions.
func (k *Oracle) mutatedOutside(s *Store, st State) {
	k.bad(s, ps("C06", "C07", "C09"), "changed-outside", "stored tasks changed outside any transaction: %s", diffState(s.state(), st))
	v := s.observe(st, 0, nil, "outside")
	s.push(v)
}

// --------------------------------------------------------------------- answers

func sentinel(err error) int {
	switch {
	case errors.Is(err, ratus.ErrBadRequest):
		return 400
	case errors.Is(err, ratus.ErrNotFound):
		return 404
	case errors.Is(err, ratus.ErrConflict):
		return 409
	case errors.Is(err, ratus.ErrClientClosedRequest):
		return 499
	case errors.Is(err, ratus.ErrInternalServerError):
		return 500
	case errors.Is(err, ratus.ErrServiceUnavailable):
		return 503
	}
	return 0
}

// trouble reports whether the storage or network may have failed request o.
func (k *Oracle) trouble(o *OpRec) bool {
	w := k.w
	if w.mongo != nil && w.mongo.badSince(o.invAt.Add(-45*time.Second)) {
		return true
	}
	if w.mongo != nil && o.node != nil && o.node.cfg.NoIndex && (w.mongo.indexedAt.IsZero() || w.mongo.indexedAt.After(o.invAt)) {
		return true // the operator left the creation of indexes to others, who are not done
	}
	return k.netTrouble(o)
}

func (k *Oracle) netTrouble(o *OpRec) bool {
	return o.gate != nil || k.netFaulty(o.invAt)
}

// netFaulty reports whether the network may have failed something begun at t.
func (k *Oracle) netFaulty(t time.Time) bool {
	w := k.w
	for _, x := range []string{"net-reset", "net-eof", "net-silence", "net-partition", "net-dial-timeout"} {
		if w.injected[x] > 0 {
			if w.healed && t.After(k.healedAt.Add(45*time.Second)) {
				return false
			}
			return true
		}
	}
	return false
}

// disturbed reports whether the server process may have gone away under o.
func (k *Oracle) disturbed(o *OpRec) bool {
	w := k.w
	if o.canceled || k.netTrouble(o) {
		return true
	}
	for _, in := range w.incs {
		if in.node != o.node.idx || in.kind != "node" {
			continue
		}
		if in.signalled || (in.dead && !in.ended.Before(o.invAt)) {
			if !in.dead || !in.ended.Before(o.invAt) {
				return true
			}
			// The process ended before the request, but a kept connection
			// may have carried it.
			if o.invAt.Sub(in.ended) < 5*time.Second {
				return true
			}
		}
		if in.dead && o.invAt.Sub(in.ended) < 5*time.Second {
			return true
		}
	}
	if !o.node.ready() {
		return true
	}
	return false
}

// drained reports whether the process that received o before a termination
// signal had every opportunity to finish it and answer.
func (k *Oracle) drained(o *OpRec) bool {
	if len(o.serves) != 1 || o.canceled || o.timedOut || k.trouble(o) || o.sub != nil {
		return false
	}
	in := o.serves[0].inc
	if !in.signalled || !o.serves[0].at.Before(in.sigAt) || in.panicked || in.hung {
		return false
	}
	return !in.dead || in.exited && in.exitCode == 0
}

// answered judges the answer a client got.
func (k *Oracle) answered(o *OpRec) {
	w := k.w
	r := o.req
	s := o.store
	if r == nil || r.K == "noop" {
		return
	}
	k.eval("C20")
	if w.diskBad() {
		k.eval("C15")
	}
	if o.gate != nil && o.gate.sent {
		k.answeredGate(o)
		return
	}
	code := 0
	if o.err == nil {
		if o.op != nil && o.op.Raw == nil && o.status == 0 {
			k.bad(s, ps("C20"), "no-answer-ok", "op%d %s returned success without any answer from the server", o.id, reqStr(r))
			return
		}
		code = o.status
		if code >= 400 || (code >= 300 && !o.plain()) {
			k.bad(s, ps("C20"), "error-as-success", "op%d %s: the server answered %d but the client returned success", o.id, reqStr(r), code)
			return
		}
	} else if errors.Is(o.err, errStatus) {
		code = o.status
	} else if sc := sentinel(o.err); sc != 0 {
		code = sc
		if sc != o.status {
			k.bad(s, ps("C20"), "wrong-sentinel", "op%d %s: the server answered %d but the client returned %v", o.id, reqStr(r), o.status, o.err)
		}
	} else if o.status != 0 && !k.disturbed(o) && !o.timedOut {
		k.bad(s, ps("C20"), "no-sentinel", "op%d %s: the server answered %d but the client returned %v", o.id, reqStr(r), o.status, o.err)
	}
	if (code == 0 || code == 499 || code >= 500) && r.K != "cut" && r.K != "any" && r.K != "bad" && k.drained(o) {
		o.indoubt = true
		k.bad(s, ps("C13", "C20"), "not-finished", "op%d %s was being processed when %s was told to terminate, but ended with status %d, %v", o.id, reqStr(r), o.serves[0].inc.host, o.status, o.err)
		return
	}
	if code == 0 {
		o.indoubt = true
		if o.timedOut && o.defTO && !k.disturbed(o) && !k.trouble(o) {
			k.bad(s, ps("C20", "C06", "C18", "C22"), "never-answered", "op%d %s was never answered", o.id, reqStr(r))
			return
		}
		if d := w.now().Sub(o.invAt); r.K == "ready" && s.engine == "mongodb" && d > readyBound && !k.disturbed(o) && !w.healed {
			k.bad(s, ps("C24"), "ready-slow", "readiness has not been answered for %v", d)
		}
		if !o.timedOut && !k.disturbed(o) && r.K != "cut" && r.K != "any" {
			props := ps("C18", "C20", "C13")
			if r.K == "ready" || r.K == "live" {
				props = append(props, "C24")
			}
			k.bad(s, props, "dropped", "op%d %s (%s) was dropped without an answer: %v", o.id, reqStr(r), rawOf(o), o.err)
		}
		if (r.K == "cut" || r.K == "any") && !o.canceled && !o.timedOut {
			w.probe("closed-on-malformed")
		}
		if o.op != nil && o.op.Raw != nil && r.K == "bad" {
			k.eval("C18")
		}
		return
	}
	if code == 499 {
		o.indoubt = true
		if !o.canceled && !o.timedOut && !k.disturbed(o) && !k.trouble(o) && r.K != "bad" && r.K != "cut" {
			k.bad(s, ps("C20"), "spurious-499", "op%d %s got 499 although its client never left", o.id, reqStr(r))
		}
		return
	}
	if code >= 500 {
		o.indoubt = true
		if r.K == "ready" {
			k.checkReady(o, code)
			return
		}
		if r.K == "any" && (code == 501 || code == 505) {
			return // the HTTP library does not speak that
		}
		if s.engine == "memdb" || !k.trouble(o) {
			k.bad(s, ps("C20", "C18", "C07", "C10"), "server-error", "op%d %s (%s) failed with %d: %v %s", o.id, reqStr(r), rawOf(o), code, o.err, short(string(o.rawBody)))
		}
		return
	}
	o.final = true
	// A client error must have changed nothing.
	if code >= 400 {
		for _, v := range o.vers {
			if len(v.changes) > 0 && !(s.engine == "mongodb" && k.w.mongo.cfg.Shard == "topic" && (r.K == "upsert" || r.K == "upserts")) {
				k.bad(s, ps("C20", "C07"), "refused-but-changed", "op%d %s was refused with %d but changed %s", o.id, reqStr(r), code, changesStr(v.changes))
			}
		}
	}
	switch r.K {
	case "bad", "cut":
		k.eval("C18")
		if code < 400 {
			k.bad(s, ps("C18"), "malformed-accepted", "op%d malformed request (%s) was answered %d %s", o.id, rawOf(o), code, short(string(o.rawBody)))
		}
		return
	case "any":
		k.eval("C18")
		return
	case "404":
		k.eval("C18")
		if code != 404 && code != 405 && code != 301 && code != 307 && code != 308 {
			k.bad(s, ps("C18"), "unknown-route", "op%d request to an unknown route (%s) was answered %d", o.id, rawOf(o), code)
		}
		return
	case "metrics":
		return
	case "live":
		k.eval("C24")
		if code != 200 {
			k.bad(s, ps("C24"), "live", "liveness answered %d", code)
		}
		return
	case "ready":
		k.checkReady(o, code)
		return
	}
	if o.sub != nil {
		k.answeredDyn(o, code)
		return
	}
	k.judge(o, code)
}

func (o *OpRec) plain() bool { return o.op != nil && (o.op.Plain || o.op.Raw != nil) }

// lastEff returns the last version attributed to o.
func (o *OpRec) lastVer() *Ver {
	if len(o.vers) == 0 {
		return nil
	}
	return o.vers[len(o.vers)-1]
}

func (s *Store) before(v *Ver) State {
	if v.n == 0 {
		return State{}
	}
	return s.versions[v.n-1].state
}

// some reports whether a state in the window of o satisfies f.
func (k *Oracle) some(o *OpRec, f func(st State, v *Ver) bool) bool {
	s := o.store
	to := s.head()
	if o.done && o.retVer > 0 {
		to = o.retVer
	}
	for i := to; i >= o.invVer && i >= 0; i-- {
		if f(s.versions[i].state, s.versions[i]) {
			return true
		}
	}
	return false
}

func (k *Oracle) winStr(o *OpRec) string {
	s := o.store
	to := s.head()
	if o.done && o.retVer > 0 {
		to = o.retVer
	}
	return fmt.Sprintf("versions %d..%d", o.invVer, to)
}

// judge checks a definite answer of a planned operation.
func (k *Oracle) judge(o *OpRec, code int) {
	if o.store != nil && o.store.engine == "mongodb" {
		k.eval("C19")
	}
	s := o.store
	r := o.req
	mem := s.engine == "memdb"
	v := o.lastVer()
	id := r.ID
	if !mem && code < 300 && !(r.K == "inserts" || r.K == "upserts" || r.K == "any" || r.K == "bad" || r.K == "cut") && k.w.mongo.unreachableThroughout(o.invAt, k.w.now()) {
		k.bad(s, ps("C24", "C20"), "success-without-database", "op%d %s was answered %d although the database was unreachable all the time", o.id, reqStr(r), code)
	}
	wrong := func(props []string, rule, f string, a ...any) {
		k.bad(s, props, rule, "op%d %s answered %d %s: "+f, append([]any{o.id, reqStr(r), code, short(fmtResp(o.resp))}, a...)...)
	}
	okCode := func(codes ...int) bool {
		for _, c := range codes {
			if c == code {
				return true
			}
		}
		props := ps("C20", "C07")
		if code == 400 {
			props = append(props, "C18") // only requests with defects may be refused as malformed
		}
		switch r.K {
		case "insert", "upsert", "inserts", "upserts":
			props = append(props, "C08")
		case "ready", "live":
			props = append(props, "C24")
		}
		wrong(props, "status", "unexpected status")
		return false
	}
	taskResp := func() *TaskV {
		if o.ctxID != nil {
			return nil // Context.Commit does not hand out the answer
		}
		t, _ := o.resp.(*ratus.Task)
		if t == nil {
			wrong(ps("C20", "C07"), "no-task", "no task in the answer")
			return nil
		}
		if t.Defer != "" {
			wrong(ps("C07"), "defer", "answer carries a defer field")
		}
		return viewOf(t)
	}
	count := func(created, updated int64, props []string) {
		u, _ := o.resp.(*ratus.Updated)
		if u == nil || u.Created != created || u.Updated != updated {
			wrong(props, "counts", "should have reported created=%d updated=%d", created, updated)
		}
		want := 200
		if created > 0 {
			want = 201
		}
		if u != nil && u.Created == created && code != want {
			wrong(ps("C20"), "status", "status should be %d", want)
		}
	}
	switch r.K {
	case "insert":
		k.eval("C08")
		switch code {
		case 201, 200:
			if v == nil || len(v.changes) != 1 {
				wrong(ps("C08", "C20", "C07"), "not-done", "nothing was inserted")
				return
			}
			count(1, 0, ps("C08", "C20"))
		case 409:
			if !k.some(o, func(st State, _ *Ver) bool { return st[id] != nil }) {
				wrong(ps("C08", "C07", "C20"), "false-conflict", "no task with that ID existed during the request (%s)", k.winStr(o))
			}
			k.w.probe("insert-conflict")
		default:
			okCode()
		}
	case "upsert":
		k.eval("C08")
		if !okCode(200, 201) {
			return
		}
		if v == nil {
			// A replacement by an equal task changes nothing.
			lo, hi := o.invAt, k.w.now()
			if !mem && k.some(o, func(st State, _ *Ver) bool {
				return st[id] != nil && len(matchIn(r.Tasks[0], st[id], lo.Add(-time.Hour), hi.Add(time.Hour), s.prec)) == 0
			}) {
				count(0, 1, ps("C08", "C20"))
				return
			}
			wrong(ps("C08", "C20"), "not-done", "nothing was stored")
			return
		}
		fallback := !mem && k.w.mongo.cfg.Shard == "topic"
		if fallback {
			k.upsertFallback(o, wrong)
			return
		}
		if s.before(v)[id] == nil {
			count(1, 0, ps("C08", "C20"))
		} else {
			count(0, 1, ps("C08", "C20"))
			k.w.probe("upsert-replaced")
		}
	case "inserts", "upserts":
		k.eval("C08")
		if !okCode(200, 201) {
			return
		}
		if len(r.Tasks) == 0 {
			count(0, 0, ps("C08"))
			return
		}
		k.judgeBatch(o, code, wrong, count)
	case "delete", "revoke":
		k.eval("C07")
		if !okCode(200) {
			return
		}
		d, _ := o.resp.(*ratus.Deleted)
		n := int64(0)
		for _, x := range o.vers {
			n += int64(len(x.changes))
		}
		if d == nil || d.Deleted != n {
			wrong(ps("C07", "C20", "C10"), "deleted-count", "%d tasks were changed", n)
			return
		}
		if n == 0 {
			absent := func(st State, _ *Ver) bool { return st[id] == nil || (r.K == "revoke" && st[id].State != 1) }
			if !k.some(o, absent) {
				wrong(ps("C07"), "false-absent", "the target was there all the time (%s)", k.winStr(o))
			}
		}
	case "deltasks", "deltopic", "deltopics", "revokes":
		k.eval("C10")
		if !okCode(200) {
			return
		}
		d, _ := o.resp.(*ratus.Deleted)
		n := int64(0)
		for _, x := range o.vers {
			n += int64(len(x.changes))
		}
		if d == nil || d.Deleted != n {
			wrong(ps("C10", "C20"), "bulk-count", "%d tasks were changed", n)
			return
		}
		if v == nil {
			wrong(ps("C10", "C20"), "not-done", "no change was attempted")
		}
		if !mem {
			// Nothing that was there all the time may have survived.
			for _, x := range k.alwaysThere(o, func(t *TaskV) bool {
				return (r.K == "deltopics" || t.Topic == r.Topic) && (r.K != "revokes" || t.State == 1)
			}) {
				wrong(ps("C10"), "bulk-left", "%s survived", x)
			}
		}
	case "get":
		k.eval("C07")
		if code == 404 {
			if !k.some(o, func(st State, _ *Ver) bool { return st[id] == nil }) {
				wrong(ps("C07", "C06", "C20"), "false-absent", "the task was there all the time (%s)", k.winStr(o))
			}
			return
		}
		if !okCode(200) {
			return
		}
		t := taskResp()
		if t != nil && !k.some(o, func(st State, _ *Ver) bool { return eqTask(st[id], t) }) {
			wrong(ps("C07", "C06", "C09"), "wrong-read", "matches no stored state during the request (%s): now %s", k.winStr(o), s.state()[id])
		}
	case "getp":
		k.eval("C07")
		if code == 404 {
			if !k.some(o, func(st State, _ *Ver) bool { return st[id] == nil || st[id].State != 1 }) {
				wrong(ps("C07", "C20"), "false-absent", "the promise was in effect all the time (%s)", k.winStr(o))
			}
			return
		}
		if !okCode(200) {
			return
		}
		p, _ := o.resp.(*ratus.Promise)
		if p == nil || !k.some(o, func(st State, _ *Ver) bool { return eqPromise(st[id], p) }) {
			wrong(ps("C07"), "wrong-read", "matches no promise in effect during the request (%s)", k.winStr(o))
		}
	case "poll", "claim", "fclaim":
		k.eval("C01", "C07")
		switch code {
		case 404:
			if r.K == "poll" {
				k.notFoundPoll(o)
				return
			}
			if !k.some(o, func(st State, _ *Ver) bool { return st[id] == nil }) {
				wrong(ps("C07", "C01"), "false-absent", "the task was there all the time (%s)", k.winStr(o))
			}
		case 409:
			if r.K == "fclaim" || r.K == "poll" {
				wrong(ps("C07", "C19", "C20"), "status", "conflict is no possible answer")
				return
			}
			k.claimConflict(o, wrong)
		default:
			if !okCode(200) {
				return
			}
			t := taskResp()
			if v == nil || len(v.changes) != 1 {
				wrong(ps("C01", "C20", "C07"), "not-done", "no task was claimed")
				return
			}
			if a := v.changes[0].after; t != nil && !eqTask(a, t) {
				wrong(ps("C01", "C07", "C20"), "answer-differs", "differs in %v from the claimed task %s", diffFields(a, t), a)
			}
		}
	case "commit":
		k.judgeCommit(o, code, wrong, taskResp, okCode)
	case "listt", "listp", "topics", "topic":
		k.judgeList(o, code, wrong)
	}
}

func eqPromise(t *TaskV, p *ratus.Promise) bool {
	return t != nil && t.State == 1 && t.ID == p.ID && t.Consumer == p.Consumer && eqT(t.Deadline, tp(p.Deadline))
}

func (k *Oracle) alwaysThere(o *OpRec, f func(t *TaskV) bool) (out []*TaskV) {
	s := o.store
	to := s.head()
	if o.done && o.retVer > 0 {
		to = o.retVer
	}
outer:
	for _, id := range s.versions[o.invVer].state.ids() {
		for i := o.invVer; i <= to; i++ {
			t := s.versions[i].state[id]
			if t == nil || !f(t) {
				continue outer
			}
		}
		out = append(out, s.versions[o.invVer].state[id])
	}
	return
}

func (k *Oracle) notFoundPoll(o *OpRec) {
	s, r := o.store, o.req
	k.eval("C03", "C06")
	c := o.invAt.Add(o.node.minSkew).Add(-time.Millisecond)
	var w *TaskV
	if !k.some(o, func(st State, _ *Ver) bool {
		for _, id := range st.ids() {
			t := st[id]
			if t.State == 0 && t.Topic == r.Topic && due(t, c) {
				w = t
				return false
			}
		}
		return true
	}) {
		k.bad(s, ps("C03", "C06", "C07"), "missed-work", "op%d poll of %q answered not found although the topic always had due work, such as %s (clock %s, %s)", o.id, r.Topic, w, fmtT(&c), k.winStr(o))
	}
}

func (k *Oracle) claimConflict(o *OpRec, wrong func([]string, string, string, ...any)) {
	id := o.req.ID
	k.w.probe("claim-conflict")
	if k.some(o, func(st State, _ *Ver) bool { return st[id] != nil && st[id].State != 0 }) {
		return
	}
	if o.store.engine == "mongodb" {
		// Absent first, present afterwards, or changed in between.
		if k.some(o, func(st State, _ *Ver) bool { return st[id] == nil }) && k.some(o, func(st State, _ *Ver) bool { return st[id] != nil }) {
			return
		}
		if k.changedIn(o, id) {
			return
		}
	}
	wrong(ps("C07", "C01", "C20"), "false-conflict", "the task was pending all the time (%s)", k.winStr(o))
}

func (k *Oracle) changedIn(o *OpRec, id string) bool {
	s := o.store
	for i := o.invVer + 1; i <= s.head(); i++ {
		for _, c := range s.versions[i].changes {
			if c.id == id && s.versions[i].op != o.id {
				return true
			}
		}
	}
	return false
}

func (k *Oracle) judgeCommit(o *OpRec, code int, wrong func([]string, string, string, ...any), taskResp func() *TaskV, okCode func(...int) bool) {
	s, r := o.store, o.req
	id := r.ID
	k.eval("C04", "C07")
	v := o.lastVer()
	switch code {
	case 404:
		if !k.some(o, func(st State, _ *Ver) bool { return st[id] == nil }) {
			wrong(ps("C07", "C04"), "false-absent", "the task was there all the time (%s)", k.winStr(o))
		}
	case 409:
		k.w.probe("commit-conflict")
		if k.some(o, func(st State, _ *Ver) bool { return st[id] != nil && r.Nonce != "" && st[id].Nonce != r.Nonce }) {
			return
		}
		if s.engine == "mongodb" && (k.changedIn(o, id)) {
			return
		}
		wrong(ps("C07", "C04", "C20"), "false-conflict", "the nonce matched all the time (%s)", k.winStr(o))
	default:
		if !okCode(200) {
			return
		}
		t := taskResp()
		if v == nil {
			wrong(ps("C04", "C20", "C07"), "not-done", "no commit took effect")
			return
		}
		if len(v.changes) == 0 {
			// The commit asked for what already was.
			a := v.state[id]
			if a == nil {
				wrong(ps("C04", "C20", "C07"), "not-done", "no commit took effect")
			} else if t != nil && !eqTask(a, t) {
				wrong(ps("C04", "C07", "C20"), "answer-differs", "differs in %v from the stored task %s", diffFields(a, t), a)
			} else if r.Nonce != "" || (r.NewTopic != "" && a.Topic != r.NewTopic) || (r.State != nil && a.State != *r.State) || (r.State == nil && a.State != 2) || (r.HasPay && a.Payload != r.Payload) || a.Nonce != "" {
				wrong(ps("C04", "C20", "C07"), "not-done", "the commit was not applied: %s", a)
			}
			return
		}
		if a := v.changes[0].after; t != nil && !eqTask(a, t) {
			wrong(ps("C04", "C07", "C20"), "answer-differs", "differs in %v from the committed task %s", diffFields(a, t), a)
		}
	}
}

func (k *Oracle) upsertFallback(o *OpRec, wrong func([]string, string, string, ...any)) {
	u, _ := o.resp.(*ratus.Updated)
	if u == nil || u.Created+u.Updated != 1 || u.Created < 0 || u.Updated < 0 {
		wrong(ps("C08", "C20"), "counts", "should report one task")
		return
	}
	if !k.contended(o) {
		want := int64(0)
		if o.store.versions[o.invVer].state[o.req.ID] == nil {
			want = 1
		}
		if u.Created != want {
			wrong(ps("C08", "C20"), "counts", "should report created=%d", want)
		}
		if o.store.state()[o.req.ID] == nil {
			wrong(ps("C08", "C20"), "not-done", "the task is not there")
		}
	}
}

// contended: some other operation changed a task of o's request meanwhile.
func (k *Oracle) contended(o *OpRec) bool {
	ids := map[string]bool{}
	for _, t := range o.req.Tasks {
		ids[t.V.ID] = true
	}
	s := o.store
	for i := o.invVer + 1; i <= s.head(); i++ {
		if s.versions[i].op == o.id {
			continue
		}
		for _, c := range s.versions[i].changes {
			if ids[c.id] {
				return true
			}
		}
	}
	return false
}

func (k *Oracle) judgeBatch(o *OpRec, code int, wrong func([]string, string, string, ...any), count func(int64, int64, []string)) {
	s, r := o.store, o.req
	v := o.lastVer()
	p := ps("C08", "C20", "C09")
	if v == nil && s.engine == "memdb" {
		wrong(p, "not-done", "nothing was stored")
		return
	}
	distinct := map[string]bool{}
	for _, t := range r.Tasks {
		distinct[t.V.ID] = true
	}
	dup := len(distinct) != len(r.Tasks)
	if s.engine == "memdb" {
		b := s.before(v)
		seen := map[string]bool{}
		var created, updated int64
		for _, t := range r.Tasks {
			if b[t.V.ID] == nil && !seen[t.V.ID] {
				created++
			} else {
				updated++
			}
			seen[t.V.ID] = true
		}
		if r.K == "inserts" {
			updated = 0
		}
		count(created, updated, p)
		return
	}
	fallback := k.w.mongo.cfg.Shard == "topic" && r.K == "upserts"
	var created, replaced int64
	for _, x := range o.vers {
		for _, c := range x.changes {
			if c.before == nil && c.after != nil {
				created++
			} else if c.after != nil {
				replaced++
			}
		}
	}
	if r.K == "inserts" {
		count(created, 0, ps("C08", "C20"))
	} else if !fallback && !dup {
		count(created, int64(len(r.Tasks))-created, ps("C08", "C20"))
	} else if fallback && !dup && !k.contended(o) {
		var c int64
		for _, t := range r.Tasks {
			if s.versions[o.invVer].state[t.V.ID] == nil {
				c++
			}
		}
		count(c, int64(len(r.Tasks))-c, ps("C08", "C20"))
	}
	// Everything submitted must be there unless others interfered.
	if !k.contended(o) {
		for id := range distinct {
			if s.state()[id] == nil {
				wrong(ps("C08", "C06", "C20"), "not-done", "task %q is not there", id)
			}
		}
	}
	_ = replaced
	_ = code
	_ = http.StatusOK
}

func (n *Node) maxLimit() int {
	if n.cfg.MaxLimit > 0 {
		return n.cfg.MaxLimit
	}
	return 100
}

func (n *Node) maxOffset() int {
	if n.cfg.MaxOffset > 0 {
		return n.cfg.MaxOffset
	}
	return 10000
}

func (k *Oracle) judgeList(o *OpRec, code int, wrong func([]string, string, string, ...any)) {
	r, n := o.req, o.node
	k.eval("C10")
	if r.K == "topic" {
		cnt := func(st State) (c int64) {
			for _, t := range st {
				if t.Topic == r.Topic {
					c++
				}
			}
			return
		}
		if code == 404 {
			if !k.some(o, func(st State, _ *Ver) bool { return cnt(st) == 0 }) {
				wrong(ps("C10", "C20", "C07"), "false-absent", "the topic had tasks all the time")
			}
			return
		}
		t, _ := o.resp.(*ratus.Topic)
		if code != 200 || t == nil || t.Name != r.Topic || !k.some(o, func(st State, _ *Ver) bool { return cnt(st) == t.Count && t.Count > 0 }) {
			wrong(ps("C10", "C09"), "topic-count", "the topic has %d tasks", cnt(o.store.state()))
		}
		return
	}
	limit := r.Limit
	if limit == 0 {
		limit = min(10, n.maxLimit())
	}
	if limit < 0 || limit > n.maxLimit() || r.Offset < 0 || r.Offset > n.maxOffset() {
		if code != 400 {
			wrong(ps("C10", "C18"), "page-accepted", "limit %d offset %d should have been refused (max %d, %d)", r.Limit, r.Offset, n.maxLimit(), n.maxOffset())
		}
		return
	}
	if code != 200 {
		wrong(ps("C10", "C20"), "page-refused", "limit %d offset %d is valid (max %d, %d)", r.Limit, r.Offset, n.maxLimit(), n.maxOffset())
		return
	}
	why := ""
	ok := k.some(o, func(st State, _ *Ver) bool {
		why = pageMatches(o, r, st, limit)
		return why == ""
	})
	if !ok {
		wrong(ps("C10", "C09", "C07"), "page-wrong", "limit %d offset %d matches no stored state during the request (%s): %s", limit, r.Offset, k.winStr(o), why)
	}
}

// pageMatches reports why the page is not a page of the listing in st.
func pageMatches(o *OpRec, r *Req, st State, limit int) string {
	total := 0
	seen := map[string]bool{}
	switch r.K {
	case "topics":
		ts := map[string]bool{}
		for _, t := range st {
			ts[t.Topic] = true
		}
		total = len(ts)
		v, _ := o.resp.([]*ratus.Topic)
		for _, x := range v {
			if x == nil || !ts[x.Name] {
				return "topic without tasks"
			}
			if seen[x.Name] {
				return "duplicate topic " + x.Name
			}
			seen[x.Name] = true
		}
	case "listt":
		for _, t := range st {
			if t.Topic == r.Topic {
				total++
			}
		}
		v, _ := o.resp.([]*ratus.Task)
		for _, x := range v {
			if x == nil {
				return "null entry"
			}
			t := st[x.ID]
			if t == nil || t.Topic != r.Topic {
				return "foreign task " + x.ID
			}
			if d := diffFields(t, viewOf(x)); len(d) > 0 {
				return fmt.Sprintf("task %s differs in %v", x.ID, d)
			}
			if seen[x.ID] {
				return "duplicate task " + x.ID
			}
			seen[x.ID] = true
		}
	case "listp":
		for _, t := range st {
			if t.Topic == r.Topic && t.State == 1 {
				total++
			}
		}
		v, _ := o.resp.([]*ratus.Promise)
		for _, x := range v {
			if x == nil {
				return "null entry"
			}
			t := st[x.ID]
			if t == nil || t.Topic != r.Topic || !eqPromise(t, x) {
				return "foreign or wrong promise " + x.ID
			}
			if seen[x.ID] {
				return "duplicate promise " + x.ID
			}
			seen[x.ID] = true
		}
	}
	want := min(limit, max(0, total-r.Offset))
	if len(seen) != want {
		return fmt.Sprintf("page has %d entries instead of %d (of %d)", len(seen), want, total)
	}
	return ""
}

// readyBound: the driver looks for a server for 30 s, and an attempt on a dead
// connection takes a heartbeat interval (10 s) and a connect timeout (30 s) to fail.
const readyBound = 80 * time.Second

func (k *Oracle) checkReady(o *OpRec, code int) {
	k.eval("C24")
	s := o.store
	if s.engine == "memdb" {
		if code != 200 {
			k.bad(s, ps("C24"), "ready-mem", "readiness answered %d on a serving MemDB instance", code)
		}
		return
	}
	m := k.w.mongo
	if code == 200 {
		// The database must have been reachable at some moment.
		if m.unreachableThroughout(o.invAt, k.w.now()) {
			k.bad(s, ps("C24"), "ready-lie", "readiness answered 200 while the database was unreachable")
		}
		return
	}
	if d := k.w.now().Sub(o.invAt); d > readyBound && !k.netTrouble(o) {
		k.bad(s, ps("C24"), "ready-slow", "readiness answered only after %v", d)
	}
	if code != 503 {
		k.bad(s, ps("C24", "C20"), "ready-status", "readiness answered %d", code)
	}
	if !k.trouble(o) {
		k.bad(s, ps("C24"), "unready", "readiness answered %d although the database is reachable", code)
	}
}

// served runs when a handler returned.
func (k *Oracle) served(o *OpRec, s *ServeRec) {}

func (k *Oracle) onPanic(inc *Inc, msg string) {
	k.panics++
	k.w.violate(ps("C18", "C22", "C20"), "panic", "a request handler panicked: %s", short(firstLines(msg, 3)))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}
