package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"time"
	"verifhook"
	"verifsync"
)

// ---------------------------------------------------------------- randomness

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) pct(p int) bool { return r.intn(100) < p }
func (r *rng) rangeInt(a, b int) int { // inclusive
	if b <= a {
		return a
	}
	return a + r.intn(b-a+1)
}
func pick[T any](r *rng, xs ...T) T { return xs[r.intn(len(xs))] }

func mix(xs ...uint64) uint64 {
	r := rng{0x51ed270b}
	h := uint64(0)
	for _, x := range xs {
		r.s = h ^ (x+1)*0xff51afd7ed558ccd
		h = r.u64()
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// --------------------------------------------------------------------- world

const (
	ptOp       = 1<<20 + iota // a client starts an operation
	ptFS                      // about to perform a disk operation
	ptFSDone                  // performed a disk operation
	ptServe                   // a request reached a server
	ptServeEnd                // a handler returned
	ptListen
	ptHandler // a subscription handler
	ptMisc
)

type parked struct {
	tag  uint64
	seq  uint64
	id   uint32
	ch   chan struct{}
	inc  *Inc
	due  time.Time
	gone bool
}

type event struct {
	at  time.Time
	seq uint64
	tag uint64
	fn  func()
	txt string
}

// Inc is one incarnation of a process (or a client).
type Inc struct {
	failedSave time.Time // of the last disk error while writing
	idx        int
	kind       string // node, client, mongo
	node       int
	host       string
	dead       bool
	booting    bool
	up         bool
	exited     bool
	exitCode   int
	stall      time.Time
	started    time.Time
	upAt       time.Time
	ended      time.Time
	sigAt      time.Time
	signalled  bool
	skew       time.Duration
	hung       bool
	panicked   bool
	lastLog    string
	fs         *simFS
	store      *Store
	listeners  []*listener
	conns      []*conn
	sigs       []sigReg
	inflight   map[int]bool // op ids being served
	globals    []reflect.Value
}

type World struct {
	owner      *Inc   // whose package-level variables are in place
	canonSeq   uint64 // everything up to here has its final order
	plan       *Plan
	start      time.Time
	seq        uint64
	steps      int
	parked     []*parked
	events     []*event
	incs       []*Inc
	wake       chan struct{}
	never      chan struct{}
	last       uint64 // tag that ran last
	enabled    []bool
	prio       map[uint64]uint64
	choose     chooser
	rnd        *rng // scheduling policy
	hash       uint64
	contest    int
	switches   int
	counts     map[string]int
	faultsDone []bool
	fidx       map[string][]int
	injected   map[string]int
	probes     map[string]int
	verbose    bool
	log        []string
	noSkew     bool
	stop       bool
	abort      bool
	skipped    int // yield points passed without yielding

	nodes        []*Node
	net          *simNet
	mongo        *Mongo
	stores       []*Store
	ops          []*OpRec
	clients      []*Client
	subs         []*subscriber
	orc          *Oracle
	viol         []Violation
	stuck        string
	phase        string
	healed       bool
	lastProgress int
	progressAt   time.Time
	gateFault    *Fault
	gateUntil    time.Time
	gateOnce     bool
	splitDelay   time.Duration // added between the two parts of a message
	splitUntil   time.Time     // arrival of the last second part
	endFns       []func()
	base         map[string]float64
	t0           time.Time
	endAt        time.Time
	note         string
}

type Violation struct {
	Props []string
	Rule  string
	Msg   string
	Seq   uint64
	At    string
}

var W *World

type chooser struct {
	replay bool
	in     []int
	pos    int
	out    []int
}

func (w *World) now() time.Time {
	o := w.noSkew
	w.noSkew = true
	t := time.Now()
	w.noSkew = o
	return t.Round(0)
}

// nowMono keeps the monotonic reading (for timers).
func (w *World) elapsed() time.Duration { return w.now().Sub(w.start) }

func (w *World) logf(f string, a ...any) {
	if w.verbose {
		w.log = append(w.log, fmt.Sprintf("%8d %12s ", w.seq, w.elapsed())+fmt.Sprintf(f, a...))
	}
}

func (w *World) ev() uint64 { w.seq++; return w.seq }

func (w *World) mixHash(xs ...uint64) {
	if w.verbose && os.Getenv("HASHLOG") != "" {
		w.logf("hash %x", xs)
	}
	for _, x := range xs {
		w.hash = (w.hash ^ x) * 1099511628211
		w.hash ^= w.hash >> 29
	}
}

func (w *World) wakeup() {
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (w *World) after(d time.Duration, tag uint64, txt string, fn func()) *event {
	return w.at(w.now().Add(d), tag, txt, fn)
}

func (w *World) at(t time.Time, tag uint64, txt string, fn func()) *event {
	e := &event{at: t, seq: w.ev(), tag: tag, fn: fn, txt: txt}
	w.events = append(w.events, e)
	w.wakeup()
	return e
}

func (w *World) violate(props []string, rule, f string, a ...any) {
	if diskRules[rule] && w.diskBad() {
		props = append(append([]string(nil), props...), "C15")
	}
	v := Violation{Props: props, Rule: rule, Msg: fmt.Sprintf(f, a...), Seq: w.seq, At: w.elapsed().String()}
	w.viol = append(w.viol, v)
	w.logf("!! VIOLATION %v %s: %s", props, rule, v.Msg)
}

// diskRules are ways in which a queue stops when it does not bear disk errors.
var diskRules = map[string]bool{"never-recovered": true, "never-expired": true, "no-progress": true, "never-answered": true, "dropped": true, "crashed": true,
	"server-error": true, "never-exits": true, "chore-left": true}

func (w *World) diskBad() bool {
	for _, n := range w.nodes {
		if n.diskFaults() > 0 {
			return true
		}
	}
	return false
}

func (w *World) probe(s string) { w.probes[s]++ }

// ------------------------------------------------------------ goroutine side

func curInc() *Inc {
	t := verifhook.GetTag()
	if t == 0 || W == nil {
		return nil
	}
	i := int(t >> 32)
	if i >= len(W.incs) {
		return nil
	}
	return W.incs[i]
}

func curOp() int { return int(uint32(verifhook.GetTag())) }

func mkTag(inc *Inc, op int) uint64 { return uint64(inc.idx)<<32 | uint64(uint32(op)) }

func dieIfDead(inc *Inc) {
	if inc != nil && inc.dead {
		select {}
	}
}

func yield(id uint32) {
	t := verifhook.GetTag()
	if t == 0 {
		return
	}
	w := W
	inc := w.incs[t>>32]
	dieIfDead(inc)
	if inc.booting || w.stop {
		if !w.stop {
			w.own(inc)
		}
		return
	}
	if id < uint32(len(w.enabled)) && !w.enabled[id] {
		// A loop over disabled points must not spin for ever.
		if w.skipped++; w.skipped < 1000000 {
			w.own(inc)
			return
		}
	}
	w.park(t, inc, id)
}

func (w *World) park(t uint64, inc *Inc, id uint32) {
	w.skipped = 0
	p := &parked{tag: t, seq: w.ev(), id: id, ch: make(chan struct{}), inc: inc}
	if bp := w.plan.Sched.PauseBP; bp > 0 && inc.kind == "node" && w.phase == "work" {
		// A goroutine that loses its processor for a while.
		if h := mix(mix(w.plan.Sched.PointSeed, t), uint64(id)); int(h%10000) < bp {
			d := time.Duration(w.plan.Sched.PauseUS) * time.Microsecond >> (h >> 40 % 8)
			p.due = w.now().Add(d)
			w.injected["pause"]++
			if inc.node < len(w.nodes) {
				// It may hold a lock: count the time in which anyone pauses.
				n := w.nodes[inc.node]
				from := w.now()
				if n.pausedTo.After(from) {
					from = n.pausedTo
				}
				if p.due.After(from) {
					n.stallTotal += p.due.Sub(from)
					n.pausedTo = p.due
				}
			}
		}
	}
	w.parked = append(w.parked, p)
	w.wakeup()
	<-p.ch
	dieIfDead(inc)
	w.own(inc)
}

// forcePark parks even while booting points are disabled.
func forcePark(id uint32) {
	t := verifhook.GetTag()
	if t == 0 {
		return
	}
	inc := W.incs[t>>32]
	dieIfDead(inc)
	if W.stop {
		return
	}
	inc.booting = false
	W.park(t, inc, id)
}

// ------------------------------------------------------------ controller side

type cand struct {
	tag uint64
	seq uint64
	p   *parked
	e   *event
}

// canon orders what goroutines that ran at the same time left behind, such as
// those woken by timers of one instant, independently of the order in which
// the processor happened to run them.
func (w *World) canon() {
	type item struct {
		tag uint64
		id  uint32
		seq *uint64
	}
	order := func(xs []item) {
		if len(xs) < 2 {
			return
		}
		seqs := make([]uint64, len(xs))
		for i, x := range xs {
			seqs[i] = *x.seq
		}
		sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
		sort.SliceStable(xs, func(i, j int) bool {
			if xs[i].tag != xs[j].tag {
				return xs[i].tag < xs[j].tag
			}
			if xs[i].id != xs[j].id {
				return xs[i].id < xs[j].id
			}
			return *xs[i].seq < *xs[j].seq
		})
		for i, x := range xs {
			*x.seq = seqs[i]
		}
	}
	var ps, es []item
	for i := len(w.parked) - 1; i >= 0 && w.parked[i].seq > w.canonSeq; i-- {
		ps = append(ps, item{w.parked[i].tag, w.parked[i].id, &w.parked[i].seq})
	}
	for i := len(w.events) - 1; i >= 0 && w.events[i].seq > w.canonSeq; i-- {
		es = append(es, item{w.events[i].tag, 0, &w.events[i].seq})
	}
	order(ps)
	order(es)
	w.canonSeq = w.seq
}

func (w *World) collect() (cs []cand, next time.Time) {
	now := w.now()
	// Drop parked goroutines of dead processes.
	out := w.parked[:0]
	for _, p := range w.parked {
		if p.inc.dead {
			continue
		}
		out = append(out, p)
	}
	w.parked = out
	upd := func(t time.Time) {
		if next.IsZero() || t.Before(next) {
			next = t
		}
	}
	for _, p := range w.parked {
		d := p.due
		if p.inc.stall.After(d) {
			d = p.inc.stall
		}
		if d.After(now) {
			upd(d)
			continue
		}
		cs = append(cs, cand{p.tag, p.seq, p, nil})
	}
	for _, e := range w.events {
		if e.at.After(now) {
			upd(e.at)
			continue
		}
		cs = append(cs, cand{e.tag, e.seq, nil, e})
	}
	sort.Slice(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		al, bl := a.tag == w.last && a.p != nil, b.tag == w.last && b.p != nil
		if al != bl {
			return al
		}
		return a.seq < b.seq
	})
	return cs, next
}

func (w *World) pickCand(cs []cand) int {
	n := len(cs)
	if n == 1 {
		return 0
	}
	w.contest++
	c := &w.choose
	var k int
	if c.replay {
		if c.pos < len(c.in) {
			k = c.in[c.pos] % n
		}
		c.pos++
	} else {
		k = w.policy(cs)
	}
	c.out = append(c.out, k)
	if k != 0 {
		w.switches++
	}
	return k
}

func (w *World) policy(cs []cand) int {
	n := len(cs)
	pc := &w.plan.Sched
	if w.steps-w.lastProgress > 20000 { // fairness
		m := 0
		for i := range cs {
			if cs[i].seq < cs[m].seq {
				m = i
			}
		}
		return m
	}
	switch pc.Policy {
	case "sticky":
		if w.rnd.intn(1000) < pc.Switch {
			return w.rnd.intn(n)
		}
		return 0
	case "pct":
		best := 0
		for i, c := range cs {
			if _, ok := w.prio[c.tag]; !ok {
				w.prio[c.tag] = w.rnd.u64() >> 1
			}
			if w.prio[c.tag] > w.prio[cs[best].tag] {
				best = i
			}
		}
		if w.rnd.intn(1000) < pc.Switch {
			w.prio[cs[best].tag] = w.rnd.u64() >> 8
		}
		return best
	default:
		return w.rnd.intn(n)
	}
}

// loop runs the world until done() or a limit.
func (w *World) loop(done func() bool, maxTime time.Time) bool {
	for {
		verifsync.Wait()
		w.canon()
		if done() {
			return true
		}
		if w.abort {
			w.stuck = "aborted"
			return false
		}
		if w.steps >= w.plan.MaxSteps {
			w.stuck = "steps"
			return false
		}
		w.timeFaults()
		cs, next := w.collect()
		if len(cs) == 0 {
			now := w.now()
			if !now.Before(maxTime) {
				w.stuck = "time"
				return false
			}
			if next.IsZero() || next.After(maxTime) {
				next = maxTime
			}
			if ft := w.nextFaultTime(); !ft.IsZero() && ft.Before(next) {
				next = ft
			}
			d := next.Sub(now)
			select {
			case <-w.wake:
			default:
			}
			if len(w.parked) > 0 && w.anyRunnable() {
				continue
			}
			if d <= 0 {
				d = 1
			}
			t := time.NewTimer(d)
			select {
			case <-w.wake:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		if w.verbose && os.Getenv("HASHLOG") != "" {
			for _, c := range cs {
				w.logf("cand %s seq=%d", tagStr(c.tag), c.seq)
			}
		}
		k := w.pickCand(cs)
		c := cs[k]
		w.steps++
		verifhook.SetStep(uint64(w.steps))
		if c.p != nil {
			for i, p := range w.parked {
				if p == c.p {
					w.parked = append(w.parked[:i], w.parked[i+1:]...)
					break
				}
			}
			w.last = c.tag
			w.mixHash(c.tag, uint64(c.p.id), uint64(k))
			if w.verbose {
				w.logf("run %s %s", tagStr(c.tag), pointStr(c.p.id))
			}
			w.count("step")
			if c.p.inc.dead { // a step fault killed it
				continue
			}
			c.p.ch <- struct{}{}
		} else {
			for i, e := range w.events {
				if e == c.e {
					w.events = append(w.events[:i], w.events[i+1:]...)
					break
				}
			}
			w.mixHash(0xe, c.e.tag, hashStr(c.e.txt), uint64(k))
			if w.verbose {
				w.logf("event %s", c.e.txt)
			}
			w.count("step")
			c.e.fn()
		}
	}
}

func (w *World) anyRunnable() bool { cs, _ := w.collect(); return len(cs) > 0 }

func tagStr(t uint64) string {
	i := int(t >> 32)
	if t == 0 {
		return "ctl"
	}
	if i < len(W.incs) {
		return fmt.Sprintf("%s#%d/op%d", W.incs[i].host, i, uint32(t))
	}
	return fmt.Sprint(t)
}

func pointStr(id uint32) string {
	if int(id) < len(pointNames) {
		return pointNames[id]
	}
	switch id {
	case ptOp:
		return "<op>"
	case ptFS:
		return "<fs>"
	case ptFSDone:
		return "<fs done>"
	case ptServe:
		return "<serve>"
	case ptServeEnd:
		return "<served>"
	}
	return fmt.Sprintf("<%d>", id)
}

var pointNames []string

// newInc registers an incarnation.
func (w *World) newInc(kind, host string, node int) *Inc {
	in := &Inc{idx: len(w.incs), kind: kind, host: host, node: node, started: w.now(), inflight: map[int]bool{}}
	w.incs = append(w.incs, in)
	return in
}

// sleepUntilDone lets a harness goroutine block for a simulated duration.
func simSleep(d time.Duration) { time.Sleep(d) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifsim:", err)
		os.Exit(3)
	}
}
