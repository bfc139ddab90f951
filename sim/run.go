package main

import (
	crand "crypto/rand"
	"fmt"
	"io"
	mrand "math/rand"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"verifhook"
	"verifsync"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/hyperonym/ratus"
)

// Result is what a run reports.
type Result struct {
	Seed     uint64
	Prop     string
	Scenario string
	Hash     uint64
	Steps    int
	Contest  int
	Switches int
	Ops      int
	Vers     int
	SimMS    int64
	WallUS   int64
	States   []uint64 `json:",omitempty"`
	Injected map[string]int
	Probes   map[string]int
	Evals    map[string]int
	Viol     []Violation
	Stuck    string   `json:",omitempty"`
	Choices  []int    `json:",omitempty"`
	Log      []string `json:",omitempty"`
	Err      string   `json:",omitempty"`
	HeapMB   int      `json:",omitempty"`
}

type runOpts struct {
	verbose bool
	choices bool
}

func runPlan(p *Plan, ro runOpts) (res *Result) {
	t0 := time.Now()
	resetMetrics()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	oldReader := crand.Reader
	crand.Reader = simRand{newRng(p.Seed ^ 0xc0ffee)}
	seedDriver(p.Seed)
	defer func() { crand.Reader = oldReader }()
	mrand.Seed(int64(p.Seed))
	var w *World
	verifhook.SetRun(true, p.Seed)
	verifsync.Run(func() {
		w = newWorld(p)
		w.verbose = ro.verbose
		w.main()
	})
	verifhook.SetRun(false, 0)
	W = nil
	res = w.result(ro)
	res.WallUS = time.Since(t0).Microseconds()
	return res
}

func newWorld(p *Plan) *World {
	w := &World{plan: p, wake: make(chan struct{}, 1), never: make(chan struct{}), prio: map[uint64]uint64{},
		rnd: newRng(p.Seed ^ 0x5ced), counts: map[string]int{}, injected: map[string]int{}, probes: map[string]int{}, hash: 14695981039346656037}
	W = w
	w.start = time.Now().Round(0)
	w.choose.in = p.Choices
	w.choose.replay = p.Replay
	w.enabled = make([]bool, len(pointNames))
	for i := range w.enabled {
		w.enabled[i] = int(mix(p.Sched.PointSeed, uint64(i))%100) < p.Sched.PointPct
	}
	if p.MaxSteps == 0 {
		p.MaxSteps = 400000
	}
	if p.MaxSec == 0 {
		p.MaxSec = 3600
	}
	w.net = newNet(w)
	w.orc = newOracle(w)
	w.ops = append(w.ops, nil)
	ctl := w.newInc("ctl", "ctl", -1) // index 0 is the controller
	_ = ctl
	for _, c := range p.Nodes {
		w.addNode(c)
	}
	if p.Mongo != nil {
		w.mongo = w.addMongo(*p.Mongo)
	}
	for _, n := range w.nodes {
		if n.cfg.Engine == "mongodb" {
			n.store = w.mongo.store
		} else {
			n.store = w.addStore("memdb", n)
		}
	}
	w.base = metricTotals(nil)
	return w
}

// until runs the world until f holds; false if the time limit passed first.
func (w *World) until(d time.Duration, f func() bool) bool {
	w.stuck = ""
	ok := w.loop(f, w.now().Add(d))
	return ok
}

// idle lets simulated time pass.
func (w *World) idle(d time.Duration) bool {
	t := w.now().Add(d)
	w.until(d, func() bool { return !w.now().Before(t) })
	if w.stuck == "time" {
		w.stuck = ""
	}
	return w.stuck == ""
}

func (w *World) spawn(c *Client, f func()) {
	c.done = false
	go func() {
		verifhook.SetTag(mkTag(c.inc, 0))
		f()
		c.done = true
		w.wakeup()
	}()
}

func (w *World) fatal() bool { return w.stuck == "steps" || len(w.viol) > 20 }

func (w *World) main() {
	p := w.plan
	defer func() { w.stop = true; w.endAt = w.now() }()
	for _, n := range w.nodes {
		n := n
		w.after(time.Duration(n.cfg.StartMS)*time.Millisecond, 0, "boot "+n.host, func() { n.boot() })
	}
	w.phase = "preload"
	maxRun := time.Duration(p.MaxSec) * time.Second
	if len(p.Preload) > 0 {
		c := w.newClient("pre")
		w.spawn(c, func() {
			for i := range p.Preload {
				c.perform(&p.Preload[i])
			}
		})
		if !w.until(maxRun, func() bool { return c.done }) {
			w.noProgress("preload")
			return
		}
	}
	// From here on faults fire; counters start at zero.
	w.t0 = w.now()
	w.indexFaults()
	lat := w.counts["lat"]
	w.counts = map[string]int{"lat": lat}
	w.phase = "work"
	for i, ops := range p.Clients {
		c := w.newClient(fmt.Sprintf("c%d", i))
		c.ops = ops
		w.spawn(c, func() {
			for i := range c.ops {
				if w.stop {
					return
				}
				c.perform(&c.ops[i])
			}
		})
	}
	for i, sc := range p.Subs {
		s := w.startSub(i, sc)
		go s.run()
	}
	work := w.clients
	if !w.until(maxRun, func() bool {
		for _, c := range work {
			if !c.done {
				return false
			}
		}
		return w.elapsed()-w.t0.Sub(w.start) >= time.Duration(p.End.WorkSec)*time.Second
	}) {
		w.noProgress("work")
		return
	}
	w.orc.shutdownOverdue()
	// Faults stop.
	w.phase = "heal"
	w.healAll()
	if !w.until(10*time.Minute, func() bool {
		for _, n := range w.nodes {
			if n.inc != nil && n.alive() && n.inc.signalled {
				return false // still shutting down
			}
			if !n.alive() && n.restartAfterExit == 0 && !n.bootPending && !w.restartPending() {
				n.boot()
				return false
			}
			if n.port() > 0 && !n.ready() {
				return false
			}
		}
		return true
	}) {
		w.orc.shutdownOverdue()
		w.violate(ps("C12", "C22", "C23", "C24", "C15"), "not-serving", "not every instance serves again 10 minutes after faults stopped (%s)", w.stuck)
		return
	}
	w.phase = "quiet"
	wait := 3 * time.Second
	for _, n := range w.nodes {
		wait = max(wait, n.initialDelay()+2*n.chore()+3*time.Second)
	}
	wait = max(wait, time.Duration(p.End.WaitSec)*time.Second)
	if w.mongo != nil && w.mongo.everBad {
		wait = max(wait, 50*time.Second) // let the driver find its way back
	}
	if !w.idle(wait) {
		w.noProgress("quiet")
		return
	}
	w.orc.quiet()
	if w.mongo != nil {
		w.mongo.checkIndexes()
	}
	w.orc.liveSubs()
	for _, s := range w.subs {
		if s.cancel != nil {
			s.cancel()
		}
	}
	if len(w.subs) > 0 {
		w.idle(s30)
		w.orc.endSubs()
	}
	w.phase = "check"
	if !w.runChecker("chk", true, maxRun) {
		return
	}
	if p.End.Restart != "" && !w.fatal() {
		w.phase = "restart"
		for _, n := range w.nodes {
			if !n.alive() {
				continue
			}
			switch p.End.Restart {
			case "graceful":
				n.signal("term")
			case "kill":
				n.kill(false, 0, 0)
			case "power":
				n.kill(true, int(p.Seed%101), int(p.Seed/101%101))
			}
		}
		if !w.until(2*time.Minute, func() bool {
			for _, n := range w.nodes {
				if n.alive() {
					return false
				}
			}
			return true
		}) {
			w.orc.shutdownOverdue()
			if w.stuck == "steps" {
				w.noProgress("restart")
			}
			return
		}
		for _, n := range w.nodes {
			n.boot()
			w.idle(time.Millisecond)
		}
		if !w.until(2*time.Minute, func() bool {
			for _, n := range w.nodes {
				if n.port() > 0 && !n.ready() {
					return false
				}
			}
			return true
		}) {
			w.violate(ps("C12", "C14", "C23"), "not-serving", "not every instance serves 2 minutes after the restart (%s)", w.stuck)
			return
		}
		w.phase = "recheck"
		if !w.runChecker("chk2", false, maxRun) {
			return
		}
	}
	w.phase = "done"
	w.orc.shutdownOverdue()
}

const s30 = 30 * time.Second

func (w *World) restartPending() bool {
	for _, e := range w.events {
		if e.txt == "restart" || strings.HasPrefix(e.txt, "boot ") {
			return true
		}
	}
	return false
}

func (w *World) healAll() {
	w.healed = true
	w.orc.healedAt = w.now()
	w.net.healAll()
	for _, n := range w.nodes {
		n.fs.full = false
		n.fs.eio = map[string]bool{}
		if n.inc != nil && n.inc.stall.After(w.now()) {
			n.inc.stall = w.now()
		}
		for i := range n.diskWindows {
			if n.diskWindows[i].to.After(w.now()) {
				n.diskWindows[i].to = w.now()
			}
		}
	}
	for _, q := range w.parked {
		if q.due.After(w.now()) {
			q.due = w.now()
		}
	}
	if w.mongo != nil {
		w.mongo.heal()
	}
	w.logf("HEAL")
}

// noProgress: the work did not finish although it should have.
func (w *World) noProgress(phase string) {
	if w.abort {
		return
	}
	var busy []string
	for _, c := range w.clients {
		if c.cur != nil && !c.cur.done {
			busy = append(busy, fmt.Sprintf("op%d %s", c.cur.id, reqStr(c.cur.req)))
		}
	}
	if w.stuck == "steps" && w.steps-w.lastProgress < 60000 {
		w.note = "step budget used up"
		return // the plan was simply too long
	}
	if w.stuck == "steps" && len(busy) == 0 && w.now().Sub(w.progressAt) > time.Second {
		w.note = "step budget used up"
		return // nobody waits for anything but background jobs, which took them all
	}
	w.violate(ps("C06", "C19", "C20", "C22", "C05"), "no-progress", "no progress in phase %s (%s used up): waiting for %s", phase, w.stuck, join(busy))
}

func (w *World) runChecker(name string, full bool, lim time.Duration) bool {
	c := w.newClient(name)
	w.spawn(c, func() { c.check(full) })
	if !w.until(lim, func() bool { return c.done }) {
		w.noProgress(w.phase)
		return false
	}
	return true
}

// check is the final reading of everything through the API.
func (c *Client) check(full bool) {
	w := c.w
	p := w.plan
	for _, n := range w.nodes {
		if n.port() == 0 {
			continue
		}
		if full && p.End.Drain {
			c.drain(n)
		}
		if full && p.End.Metrics && n.idx == 0 {
			c.metrics(n)
		}
		if p.End.Paging {
			c.paging(n)
		}
		ids := n.store.state().ids()
		if len(ids) > 25 {
			ids = ids[:25]
		}
		for i, id := range ids {
			c.perform(&Op{K: "get", Node: n.idx, ID: id})
			if t := n.store.state()[id]; t != nil && (t.State == 1 || i%4 == 0) {
				c.perform(&Op{K: "getp", Node: n.idx, ID: id})
			}
		}
		c.perform(&Op{K: "get", Node: n.idx, ID: "no-such-task"})
		c.perform(&Op{K: "live", Node: n.idx})
		c.perform(&Op{K: "ready", Node: n.idx})
		if w.mongo != nil && n.idx > 0 {
			break
		}
	}
}

func (s *Store) topics() (out []string) {
	seen := map[string]bool{}
	for _, t := range s.state() {
		if !seen[t.Topic] {
			seen[t.Topic] = true
			out = append(out, t.Topic)
		}
	}
	sort.Strings(out)
	return
}

func (c *Client) drain(n *Node) {
	w := c.w
	for _, t := range n.store.topics() {
		if t == "" {
			continue
		}
		for i := 0; i < 60; i++ {
			o := c.perform(&Op{K: "poll", Node: n.idx, Topic: t, Consumer: "drain", Timeout: "1h"})
			if w.stop {
				return
			}
			if o.status != 200 {
				if o.status != 404 {
					w.violate(ps("C06", "C03", "C19", "C24"), "drain-failed", "polling topic %q in quiet conditions failed: status %d, %v", t, o.status, o.err)
				}
				break
			}
			w.probe("drained")
		}
	}
}

// paging walks every listing page by page.
func (c *Client) paging(n *Node) {
	w := c.w
	r := newRng(w.plan.Seed ^ 77)
	s := n.store
	walk := func(k, topic string, entries func() map[string]bool) {
		for try := 0; try < 4; try++ {
			want := entries()
			lim := r.rangeInt(1, min(5, n.maxLimit()))
			if len(want) > 40 {
				lim = min(r.rangeInt(len(want)/15, len(want)), n.maxLimit())
			}
			ver := s.head()
			seen := map[string]int{}
			total := 0
			for off := 0; off <= n.maxOffset() && off < max(400, len(want)+10*lim); off += lim {
				o := c.perform(&Op{K: k, Node: n.idx, Topic: topic, Limit: lim, Offset: off})
				if w.stop || o.err != nil {
					return
				}
				m := 0
				switch v := o.resp.(type) {
				case []*ratus.Task:
					for _, x := range v {
						seen[x.ID]++
						m++
					}
				case []*ratus.Promise:
					for _, x := range v {
						seen[x.ID]++
						m++
					}
				case []*ratus.Topic:
					for _, x := range v {
						seen[x.Name]++
						m++
					}
				}
				total += m
				if m == 0 {
					break
				}
			}
			if s.head() != ver && len(s.changesSince(ver)) > 0 {
				continue // the store changed meanwhile
			}
			w.orc.eval("C10")
			reach := len(want) <= n.maxOffset()
			for x := range want {
				if seen[x] != 1 && reach {
					w.orc.bad(s, ps("C10"), "paging-gap", "walking %s %q with limit %d showed %q %d times", k, topic, lim, x, seen[x])
					return
				}
			}
			for x := range seen {
				if !want[x] {
					w.orc.bad(s, ps("C10"), "paging-foreign", "walking %s %q showed %q, which does not belong there", k, topic, x)
					return
				}
			}
			w.probe("paging-walk")
			return
		}
	}
	of := func(t string, active bool) func() map[string]bool {
		return func() map[string]bool {
			m := map[string]bool{}
			for id, x := range s.state() {
				if x.Topic == t && (!active || x.State == 1) {
					m[id] = true
				}
			}
			return m
		}
	}
	many := len(s.topics()) > 12
	for _, t := range s.topics() {
		if t == "" || (many && r.pct(90)) {
			continue
		}
		walk("listt", t, of(t, false))
		walk("listp", t, of(t, true))
		c.perform(&Op{K: "topic", Node: n.idx, Topic: t})
	}
	if len(s.topics()) > 0 {
		walk("topics", "", func() map[string]bool {
			m := map[string]bool{}
			for _, t := range s.topics() {
				m[t] = true
			}
			return m
		})
	}
}

func (s *Store) changesSince(ver int) (out []Change) {
	for i := ver + 1; i <= s.head(); i++ {
		out = append(out, s.versions[i].changes...)
	}
	return
}

// ------------------------------------------------------------------- metrics

// metricTotals reads counters by name, or parses the text of /metrics.
func metricTotals(text []byte) map[string]float64 {
	out := map[string]float64{}
	if text == nil {
		fs, err := prometheus.DefaultGatherer.Gather()
		must(err)
		for _, f := range fs {
			if !strings.HasPrefix(f.GetName(), "ratus_task_") || f.GetType().String() != "COUNTER" {
				continue
			}
			for _, m := range f.Metric {
				cons := ""
				for _, l := range m.Label {
					if l.GetName() == "consumer" {
						cons = l.GetValue()
					}
				}
				out[f.GetName()+"|"+cons] += m.GetCounter().GetValue()
			}
		}
		return out
	}
	for _, line := range strings.Split(string(text), "\n") {
		if !strings.HasPrefix(line, "ratus_task_") || !strings.Contains(line, "_count_total") {
			continue
		}
		name, rest, ok := strings.Cut(line, "{")
		if !ok {
			continue
		}
		i := strings.LastIndex(rest, "} ")
		if i < 0 {
			continue
		}
		var v float64
		fmt.Sscanf(rest[i+2:], "%g", &v)
		cons := ""
		if j := strings.Index(rest, `consumer="`); j >= 0 {
			s := rest[j+len(`consumer="`):]
			var b strings.Builder
			for k := 0; k < len(s) && s[k] != '"'; k++ {
				if s[k] == '\\' && k+1 < len(s) {
					k++
					switch s[k] {
					case 'n':
						b.WriteByte('\n')
					default:
						b.WriteByte(s[k])
					}
					continue
				}
				b.WriteByte(s[k])
			}
			cons = b.String()
		}
		out[name+"|"+cons] += v
	}
	return out
}

// metrics compares the exported totals with what happened.
func (c *Client) metrics(n *Node) {
	w := c.w
	if !w.metricsExact() {
		w.probe("metrics-skipped")
		return
	}
	o := c.perform(&Op{K: "metrics", Node: n.idx, Plain: true})
	if w.stop || o.status != http.StatusOK {
		if o != nil && !w.stop {
			w.violate(ps("C21"), "metrics-status", "GET /metrics answered %d %v", o.status, o.err)
		}
		return
	}
	got := metricTotals(o.rawBody)
	want := map[string]float64{}
	for _, s := range w.stores {
		for _, v := range s.versions {
			x := w.opOf(v.op)
			if x == nil || x.req == nil {
				continue
			}
			switch x.req.K {
			case "insert", "upsert":
				if s.engine == "mongodb" && w.mongo.cfg.Shard == "topic" && x.req.K == "upsert" {
					// counted once however many steps it took
					if v == x.lastVer() {
						want["produced|"]++
					}
					continue
				}
				if x.req.K == "upsert" || len(v.changes) > 0 {
					want["produced|"]++
				}
			case "inserts":
				want["produced|"] += float64(len(v.changes))
			case "upserts":
				if s.engine == "memdb" {
					want["produced|"] += float64(len(x.req.Tasks))
				} else if v == x.lastVer() {
					want["produced|"] += float64(len(x.req.Tasks))
				}
			case "poll", "claim", "fclaim":
				for _, ch := range v.changes {
					if ch.after != nil {
						want["consumed|"+ch.after.Consumer]++
					}
				}
			case "commit":
				a := v.state[x.req.ID]
				if a != nil {
					want["committed|"+a.Consumer]++
				}
			}
		}
	}
	w.orc.eval("C21")
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	have := map[string]float64{}
	for k, v := range got {
		for _, x := range []string{"produced", "consumed", "committed"} {
			if strings.HasPrefix(k, "ratus_task_"+x+"_count_total|") {
				_, cons, _ := strings.Cut(k, "|")
				d := v - w.base[k]
				if d != 0 {
					have[x+"|"+cons] += d
					keys[x+"|"+cons] = true
				}
			}
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if want[k] != have[k] {
			w.orc.bad(w.stores[0], ps("C21"), "metrics", "counter %s increased by %v but it should be %v", k, have[k], want[k])
			return
		}
	}
	w.probe("metrics-compared")
}

// metricsExact: no process died and the database never failed.
func (w *World) metricsExact() bool {
	for _, n := range w.nodes {
		if n.starts > 1 {
			return false
		}
	}
	if w.mongo != nil {
		if w.mongo.everBad {
			return false
		}
		for _, o := range w.ops {
			if o != nil && (o.indoubt || o.canceled) {
				return false
			}
		}
	}
	for _, in := range w.incs {
		if len(in.inflight) > 1 || (len(in.inflight) == 1 && w.phase != "check") {
			return false
		}
	}
	return true
}

// quiet: after faults stopped and background jobs ran, nothing overdue is left.
func (k *Oracle) quiet() {
	w := k.w
	for _, n := range w.nodes {
		if n.alive() && n.cfg.Engine == "memdb" && n.cfg.SnapMS > 0 && n.chore() > 0 && !n.inc.signalled && n.fs.nfaults > 0 {
			k.eval("C15")
			var ok time.Time
			if l := len(n.fs.saves); l > 0 {
				ok = n.fs.saves[l-1].done
			}
			if f := n.inc.failedSave; !f.IsZero() && !ok.After(f) {
				w.violate(ps("C15", "C12"), "no-retry", "writing a snapshot failed %v ago and no snapshot has been written since, although the disk works again and background jobs run every %v", w.now().Sub(f), n.chore())
			}
		}
	}
	for _, s := range w.stores {
		var jobs []*Node
		for _, n := range w.nodes {
			if n.store == s && n.alive() && n.chore() > 0 {
				jobs = append(jobs, n)
			}
		}
		if len(jobs) == 0 {
			continue
		}
		// The most lenient clock.
		n := jobs[0]
		lo := w.now().Add(n.minSkew)
		gap := n.chore() + 2*time.Second
		for _, j := range jobs[1:] {
			if t := w.now().Add(j.minSkew); t.After(lo) {
				lo = t
			}
			gap = min(gap, j.chore()+2*time.Second)
		}
		for _, id := range s.state().ids() {
			t := s.state()[id]
			if k.activeSince(s, id, s.cur(), t) > w.now().Sub(s.cur().at)+gap || w.now().Sub(s.lastChange(id)) > gap {
				if t.State == 1 && t.Deadline != nil && lo.Sub(*t.Deadline) > gap {
					k.bad(s, ps("C05", "C06", "C22"), "never-recovered", "a claim that timed out %v ago has not been recovered (background jobs every %v): %s", lo.Sub(*t.Deadline), n.chore(), t)
				}
				if t.State == 2 && t.Consumed != nil {
					if s.engine == "memdb" {
						if over := lo.Sub(t.Consumed.Add(n.retention())); over > gap {
							k.bad(s, ps("C11", "C22"), "never-expired", "a completed task is still there %v after its retention period: %s", over, t)
						}
					} else if w.mongo != nil {
						w.mongo.checkExpired(t)
					}
				}
			}
		}
		k.eval("C05", "C11", "C22")
	}
}

func (s *Store) lastChange(id string) time.Time {
	for i := s.head(); i >= 0; i-- {
		for _, c := range s.versions[i].changes {
			if c.id == id {
				return s.versions[i].at
			}
		}
	}
	return s.versions[0].at
}

// ------------------------------------------------------------------- results

func (w *World) result(ro runOpts) *Result {
	r := &Result{Seed: w.plan.Seed, Prop: w.plan.Prop, Scenario: w.plan.Scenario, Hash: w.hash, Steps: w.steps, Contest: w.contest,
		Switches: w.switches, Ops: len(w.ops) - 1, Injected: w.injected, Probes: w.probes, Evals: w.orc.evals, Viol: w.viol, Stuck: w.note}
	w.noSkew = true
	r.SimMS = w.endAt.Sub(w.start).Milliseconds()
	for _, s := range w.stores {
		r.Vers += len(s.versions)
		h := uint64(14695981039346656037)
		for _, v := range s.versions {
			for _, c := range v.changes {
				k := hashStr(c.id) ^ uint64(len(v.changes))<<7
				if c.after != nil {
					k ^= uint64(c.after.State+1)<<33 ^ hashStr(c.after.Topic)
				}
				if o := w.opOf(v.op); o != nil && o.req != nil {
					k ^= hashStr(o.req.K) * 31
				}
				h = (h ^ k) * 1099511628211
			}
		}
		if len(s.versions) > 1 {
			r.States = append(r.States, h)
		}
	}
	if ro.choices {
		r.Choices = w.choose.out
	}
	if ro.verbose {
		r.Log = w.log
	}
	return r
}

func afterRun() {
	runtime.GC()
	_ = os.Stderr
	_ = io.Discard
}
