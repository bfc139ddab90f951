package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Replay is a stored failing execution.
type Replay struct {
	Property string
	Rule     string
	Message  string
	At       string
	Hash     string
	Crash    bool   `json:",omitempty"`
	Found    string // how it was found
	Trace    []string
	Plan     *Plan
	Log      []string `json:",omitempty"`
}

type finding struct {
	prop, rule string
	re         *regexp.Regexp
	text       string
}

// loadFindings reads the known-findings file. Lines:
//
//	known: property=<id> rule=<rule> match=<regexp without spaces> <what fails>
//	fixed: property=<id> <commit> <what failed>     (suppresses nothing)
func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" {
			continue
		}
		x := finding{prop: strings.TrimPrefix(f[1], "property="), rule: strings.TrimPrefix(f[2], "rule="), text: strings.Join(f[4:], " ")}
		re, err := regexp.Compile(strings.TrimPrefix(f[3], "match="))
		must(err)
		x.re = re
		out = append(out, x)
	}
	return
}

type stats struct {
	mu         sync.Mutex
	runs       int
	simMS      int64
	steps      int64
	ops        int64
	vers       int64
	injected   map[string]int
	probes     map[string]int
	scen       map[string]int
	judged     int
	sched      map[uint64]bool
	hist       map[uint64]bool
	nontrivial map[uint64]bool
	samples    []map[string]any
	crashes    int
	crashText  string
	budget     int
	unconf     int
	suppressed map[string]int
	otherSeed  uint64
	others     map[string]int
	rechecked  int
	differ     int
}

func newStats() *stats {
	return &stats{injected: map[string]int{}, probes: map[string]int{}, scen: map[string]int{}, sched: map[uint64]bool{}, hist: map[uint64]bool{},
		nontrivial: map[uint64]bool{}, suppressed: map[string]int{}, others: map[string]int{}}
}

func (s *stats) add(prop string, r *Result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.simMS += r.SimMS
	s.steps += int64(r.Steps)
	s.ops += int64(r.Ops)
	s.vers += int64(r.Vers)
	s.scen[r.Scenario]++
	for k, v := range r.Injected {
		s.injected[k] += v
	}
	for k, v := range r.Probes {
		s.probes[k] += v
	}
	n := 0
	for _, v := range r.Injected {
		n += v
	}
	s.judged += r.Evals[prop]
	s.sched[r.Hash] = true
	for _, h := range r.States {
		s.hist[h] = true
	}
	if r.Evals[prop] > 0 && (r.Contest > 0 || n > 0) {
		if !s.nontrivial[r.Hash] && len(s.samples) < 6 && s.runs%7 == 1 {
			s.samples = append(s.samples, map[string]any{"seed": r.Seed, "scenario": r.Scenario, "schedule_hash": fmt.Sprintf("%016x", r.Hash), "scheduler_steps": r.Steps,
				"steps_with_a_choice": r.Contest, "switches": r.Switches, "operations": r.Ops, "store_versions": r.Vers, "simulated_ms": r.SimMS, "faults": r.Injected, "judgements": r.Evals[prop]})
		}
		s.nontrivial[r.Hash] = true
	}
	if r.Stuck != "" {
		s.budget++
	}
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	points := fs.String("points", "", "")
	prop := fs.String("prop", "", "")
	out := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "directory of replay files")
	known := fs.String("known", "", "known findings")
	secs := fs.Int("seconds", 25, "search time")
	minRuns := fs.Int("minruns", 1500, "least number of runs")
	maxSecs := fs.Int("maxseconds", 400, "search time at most")
	workers := fs.Int("workers", 8, "")
	only := fs.String("scenario", "", "")
	must(fs.Parse(args))
	t0 := time.Now()
	vseed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		vseed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	loadPoints(*points)
	if mixOf[*prop] == nil {
		must(fmt.Errorf("unknown property %q", *prop))
	}
	finds := loadFindings(*known)
	st := newStats()
	q := &pool{points: *points}
	defer q.close()

	type cand struct {
		seed uint64
		r    *Result
		cr   *crash
	}
	var mu sync.Mutex
	var found []cand
	next := 0
	stop := false
	tried := map[uint64]bool{}
	search := func() {
		var wg sync.WaitGroup
		for i := 0; i < *workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					el := time.Since(t0)
					done := stop || len(found) > 0 || el > time.Duration(*maxSecs)*time.Second || (el > time.Duration(*secs)*time.Second && next >= *minRuns)
					k := next
					if !done {
						next++
					}
					mu.Unlock()
					if done {
						return
					}
					seed := mix(vseed, hashStr(*prop), uint64(k)) >> 1
					r, err := q.do(&Job{Prop: *prop, Seed: seed, Scenario: *only}, false)
					var cr *crash
					if errors.As(err, &cr) {
						st.mu.Lock()
						st.crashes++
						if st.crashText == "" {
							st.crashText = fmt.Sprintf("seed %d: %v\n%s", seed, cr, lastLines(cr.stderr, 60))
						}
						st.mu.Unlock()
						mu.Lock()
						if crashCounts(*prop, cr) {
							found = append(found, cand{seed, nil, cr})
						}
						if st.crashes > 40 && st.crashes*3 > next {
							stop = true
						}
						mu.Unlock()
						continue
					}
					must(err)
					st.add(*prop, r)
					hit := false
					for i := range r.Viol {
						v := &r.Viol[i]
						if !hasProp(v, *prop) {
							st.mu.Lock()
							st.others[v.Rule]++
							st.otherSeed = seed
							st.mu.Unlock()
							continue
						}
						sup := false
						for _, f := range finds {
							if f.prop == *prop && f.rule == v.Rule && f.re.MatchString(v.Msg) {
								sup = true
								st.mu.Lock()
								st.suppressed[f.text]++
								st.mu.Unlock()
							}
						}
						if !sup {
							hit = true
						}
					}
					if hit {
						mu.Lock()
						found = append(found, cand{seed, r, nil})
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
	}
	var viols []*Replay
	for {
		search()
		if len(found) == 0 {
			break
		}
		cs := found
		found = nil
		sort.Slice(cs, func(i, j int) bool { return cs[i].seed < cs[j].seed })
		for _, c := range cs {
			if tried[c.seed] || len(viols) > 0 {
				continue
			}
			tried[c.seed] = true
			var rep *Replay
			if c.cr != nil {
				rep = confirmCrash(q, *prop, c.seed, *only, c.cr)
			} else {
				rep = confirm(q, *prop, c.seed, *only, c.r, finds, time.Duration(90)*time.Second)
			}
			if rep == nil {
				st.unconf++
				fmt.Fprintf(os.Stderr, "seed %d: a suspected violation did not reproduce in a fresh process: %v\n", c.seed, c.r)
				continue
			}
			viols = append(viols, rep)
		}
		if len(viols) > 0 || st.unconf > 20 {
			break
		}
	}
	searched := time.Since(t0)
	if len(viols) == 0 {
		// Determinism: repeat some runs in fresh processes.
		var wg sync.WaitGroup
		for i := 0; i < *workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 2; k++ {
					seed := mix(vseed, hashStr(*prop), uint64(i*31+k*7)%uint64(max(next, 1))) >> 1
					a, e1 := q.do(&Job{Prop: *prop, Seed: seed, Scenario: *only}, k == 0)
					b, e2 := q.do(&Job{Prop: *prop, Seed: seed, Scenario: *only}, false)
					if e1 != nil || e2 != nil {
						continue
					}
					st.mu.Lock()
					st.rechecked++
					if a.Hash != b.Hash || a.Steps != b.Steps {
						st.differ++
						fmt.Fprintf(os.Stderr, "seed %d (%s) is not deterministic: %016x/%d %016x/%d\n", seed, a.Scenario, a.Hash, a.Steps, b.Hash, b.Steps)
					}
					st.mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	for _, f := range finds {
		if f.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.text)
		}
	}
	code := 0
	for _, v := range viols {
		must(os.MkdirAll(*replays, 0o755))
		p := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", v.Property, v.Rule, v.Plan.Seed))
		b, err := json.MarshalIndent(v, "", " ")
		must(err)
		must(os.WriteFile(p, b, 0o644))
		fmt.Printf("%s %s: %s\n", v.Property, v.Rule, v.Message)
		for _, l := range v.Trace {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
		code = 1
	}
	writeEvidence(*out, *prop, tier, vseed, st, searched, time.Since(t0), viols)
	fmt.Printf("%s: %d runs (%d distinct schedules, %d distinct histories), %d judgements, %.0f simulated seconds, %.1f s; crashed %d unconfirmed %d step-budget %d nondeterministic %d/%d\n",
		*prop, st.runs, len(st.sched), len(st.hist), st.judged, float64(st.simMS)/1000, searched.Seconds(), st.crashes, st.unconf, st.budget, st.differ, st.rechecked)
	if len(st.others) > 0 {
		fmt.Fprintf(os.Stderr, "violations of other properties seen: %v (last with seed %d)\n", st.others, st.otherSeed)
	}
	if code == 0 && st.crashes > 0 {
		fmt.Fprintf(os.Stderr, "crashed runs: %d, first: %s\n", st.crashes, st.crashText)
		if st.crashes*3 > st.runs {
			code = 3
		}
	}
	if code == 0 && st.runs == 0 {
		code = 3
	}
	q.close()
	os.Exit(code)
}

// crashCounts: does the end of the worker process itself break prop?
func crashCounts(prop string, c *crash) bool {
	switch prop {
	case "C06", "C18", "C20", "C22", "C19", "C16", "C07":
	default:
		return false
	}
	return strings.Contains(c.stderr, "/repo/") || strings.Contains(c.stderr, "hyperonym/ratus")
}

func confirmCrash(q *pool, prop string, seed uint64, only string, first *crash) *Replay {
	p := genPlan(prop, seed, only)
	_, err := q.do(&Job{Prop: prop, Seed: seed, Plan: p}, true)
	var cr *crash
	if !errors.As(err, &cr) || cr.hang != first.hang {
		return nil
	}
	rule := "process-crash"
	if cr.hang {
		rule = "process-hang"
	}
	return &Replay{Property: prop, Rule: rule, Message: cr.Error(), Crash: true, Found: found(seed), Plan: p, Log: strings.Split(lastLines(cr.stderr, 80), "\n")}
}

func found(seed uint64) string {
	return fmt.Sprintf("seed %d, VERIF_SEED=%s", seed, os.Getenv("VERIF_SEED"))
}

// confirm reproduces a violation in a fresh process and minimises it.
func confirm(q *pool, prop string, seed uint64, only string, r *Result, finds []finding, budget time.Duration) *Replay {
	rule := ""
	for i := range r.Viol {
		v := &r.Viol[i]
		sup := false
		for _, f := range finds {
			sup = sup || (f.prop == prop && f.rule == v.Rule && f.re.MatchString(v.Msg))
		}
		if hasProp(v, prop) && !sup {
			rule = v.Rule
			break
		}
	}
	p := genPlan(prop, seed, only)
	r2, err := q.do(&Job{Prop: prop, Plan: p, Choices: true}, true)
	if err != nil || r2.hit(prop, rule) == nil {
		return nil
	}
	p.Choices, p.Replay = r2.Choices, true
	m := &mini{q: q, prop: prop, rule: rule, best: p, end: time.Now().Add(budget)}
	m.run()
	// The minimised plan must fail in the same way twice, in fresh processes.
	for _, c := range []*Plan{m.best, p} {
		a, e1 := q.do(&Job{Prop: prop, Plan: c, Verbose: true}, true)
		b, e2 := q.do(&Job{Prop: prop, Plan: c}, true)
		if e1 != nil || e2 != nil || a.Hash != b.Hash {
			continue
		}
		va, vb := a.hit(prop, rule), b.hit(prop, rule)
		if va == nil || vb == nil || va.Msg != vb.Msg {
			continue
		}
		log := a.Log
		for i, l := range log {
			if strings.Contains(l, "!! VIOLATION") && strings.Contains(l, " "+rule+":") {
				log = log[:i+1]
				break
			}
		}
		if len(log) > 1500 {
			log = log[len(log)-1500:]
		}
		return &Replay{Property: prop, Rule: rule, Message: va.Msg, At: va.At, Hash: fmt.Sprintf("%016x", a.Hash), Found: found(seed), Trace: traceOf(c, a), Plan: c, Log: log}
	}
	return nil
}

// traceOf summarises a minimised plan.
func traceOf(p *Plan, r *Result) (out []string) {
	out = append(out, fmt.Sprintf("scenario %s, %d scheduling choices recorded (%d not the default), %d steps, %d simulated ms", p.Scenario, len(p.Choices), nonzero(p.Choices), r.Steps, r.SimMS))
	for i, o := range p.Preload {
		out = append(out, fmt.Sprintf("preload %d: %s", i, opStr(&o)))
	}
	for i, c := range p.Clients {
		for j := range c {
			out = append(out, fmt.Sprintf("client %d op %d: %s", i, j, opStr(&c[j])))
		}
	}
	for i, s := range p.Subs {
		b, _ := json.Marshal(s)
		out = append(out, fmt.Sprintf("subscription %d: %s", i, b))
	}
	for _, f := range p.Faults {
		b, _ := json.Marshal(f)
		out = append(out, "fault "+string(b))
	}
	if len(out) > 60 {
		out = append(out[:60], "…")
	}
	return
}

func opStr(o *Op) string {
	b, _ := json.Marshal(o)
	return short(string(b))
}

func nonzero(xs []int) (n int) {
	for _, x := range xs {
		if x != 0 {
			n++
		}
	}
	return
}

// mini shrinks a failing plan while it fails with the same rule.
type mini struct {
	q          *pool
	prop, rule string
	best       *Plan
	end        time.Time
	tries      int
}

func (m *mini) over() bool { return time.Now().After(m.end) }

// first evaluates candidates in parallel and adopts the first that still fails.
func (m *mini) first(cs []*Plan) int {
	const par = 8
	for lo := 0; lo < len(cs) && !m.over(); lo += par {
		hi := min(lo+par, len(cs))
		res := make([]*Result, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, err := m.q.do(&Job{Prop: m.prop, Plan: cs[i], Choices: true}, false)
				if err == nil && r.hit(m.prop, m.rule) != nil {
					res[i-lo] = r
				}
			}()
		}
		wg.Wait()
		m.tries += hi - lo
		for i, r := range res {
			if r != nil {
				c := cs[lo+i]
				c.Choices, c.Replay = r.Choices, true
				m.best = c
				return lo + i
			}
		}
	}
	return -1
}

// both modes of a candidate: with the recorded choices, and rescheduled.
func modes(p *Plan) []*Plan {
	q := clonePlan(p)
	q.Choices, q.Replay = nil, false
	return []*Plan{p, q}
}

func (m *mini) variants(f func(p *Plan) bool) []*Plan {
	p := clonePlan(m.best)
	if !f(p) {
		return nil
	}
	return modes(p)
}

func (m *mini) run() {
	for round := 0; round < 4 && !m.over(); round++ {
		before, _ := json.Marshal(m.best)
		m.faults()
		m.clients()
		m.ops()
		m.misc()
		after, _ := json.Marshal(m.best)
		if string(before) == string(after) {
			break
		}
	}
	m.choices()
}

func (m *mini) faults() {
	for i := len(m.best.Faults) - 1; i >= 0 && !m.over(); i-- {
		if i >= len(m.best.Faults) {
			continue
		}
		m.first(m.variants(func(p *Plan) bool {
			p.Faults = append(p.Faults[:i:i], p.Faults[i+1:]...)
			return true
		}))
	}
}

func (m *mini) clients() {
	for i := range m.best.Clients {
		if len(m.best.Clients[i]) > 0 {
			m.first(m.variants(func(p *Plan) bool { p.Clients[i] = []Op{}; return true }))
		}
	}
	for i := len(m.best.Subs) - 1; i >= 0; i-- {
		m.first(m.variants(func(p *Plan) bool { p.Subs = append(p.Subs[:i:i], p.Subs[i+1:]...); return true }))
	}
}

func (m *mini) ops() {
	list := func(p *Plan, k int) *[]Op {
		if k < 0 {
			return &p.Preload
		}
		return &p.Clients[k]
	}
	for k := -1; k < len(m.best.Clients); k++ {
		for size := len(*list(m.best, k)); size >= 1 && !m.over(); size /= 2 {
			for again := true; again && !m.over(); {
				again = false
				var cs []*Plan
				n := len(*list(m.best, k))
				for lo := 0; lo < n; lo += size {
					cs = append(cs, m.variants(func(p *Plan) bool {
						l := list(p, k)
						*l = append((*l)[:lo:lo], (*l)[min(lo+size, n):]...)
						return true
					})...)
				}
				again = m.first(cs) >= 0
			}
		}
		// Batches.
		for i := 0; i < len(*list(m.best, k)) && !m.over(); i++ {
			for j := len((*list(m.best, k))[i].Tasks) - 1; j >= 0 && len((*list(m.best, k))[i].Tasks) > 1; j-- {
				m.first(m.variants(func(p *Plan) bool {
					o := &(*list(p, k))[i]
					o.Tasks = append(o.Tasks[:j:j], o.Tasks[j+1:]...)
					return true
				}))
			}
		}
	}
}

func (m *mini) misc() {
	var cs []func(p *Plan) bool
	set := func(f func(p *Plan) bool) { cs = append(cs, f) }
	set(func(p *Plan) bool { x := p.End.Restart != ""; p.End.Restart = ""; return x })
	set(func(p *Plan) bool { x := p.End.Drain; p.End.Drain = false; return x })
	set(func(p *Plan) bool { x := p.End.Paging; p.End.Paging = false; return x })
	set(func(p *Plan) bool { x := p.End.Metrics; p.End.Metrics = false; return x })
	set(func(p *Plan) bool { x := p.End.WaitSec > 0; p.End.WaitSec = 0; return x })
	set(func(p *Plan) bool { x := p.End.WorkSec > 0; p.End.WorkSec = 0; return x })
	set(func(p *Plan) bool { x := p.Net.JitterUS > 0; p.Net.JitterUS = 0; return x })
	for i := range m.best.Nodes {
		set(func(p *Plan) bool { x := p.Nodes[i].SkewMS != 0; p.Nodes[i].SkewMS = 0; return x })
	}
	for _, f := range cs {
		if m.over() {
			return
		}
		m.first(m.variants(f))
	}
}

func (m *mini) choices() {
	// Shorter prefixes first, then single choices back to the default.
	for n := len(m.best.Choices); n > 0 && !m.over(); {
		var cs []*Plan
		for _, k := range []int{0, n / 8, n / 4, n / 2, n * 3 / 4} {
			c := clonePlan(m.best)
			c.Choices = append([]int(nil), c.Choices[:k]...)
			cs = append(cs, c)
		}
		if m.first(cs) < 0 {
			break
		}
		m.best.Choices = trimZeros(m.best.Choices)
		if len(m.best.Choices) >= n {
			break
		}
		n = len(m.best.Choices)
	}
	for size := 64; size >= 1 && !m.over(); size /= 4 {
		for lo := 0; lo < len(m.best.Choices) && !m.over(); {
			var cs []*Plan
			var at []int
			for ; lo < len(m.best.Choices) && len(cs) < 8; lo += size {
				hi := min(lo+size, len(m.best.Choices))
				if nonzero(m.best.Choices[lo:hi]) == 0 {
					continue
				}
				c := clonePlan(m.best)
				for i := lo; i < hi; i++ {
					c.Choices[i] = 0
				}
				cs = append(cs, c)
				at = append(at, lo)
			}
			if k := m.first(cs); k >= 0 {
				lo = at[k] + size
			}
		}
		if len(m.best.Choices) > 4000 && size <= 4 {
			break
		}
	}
	m.best.Choices = trimZeros(m.best.Choices)
}

func trimZeros(xs []int) []int {
	for len(xs) > 0 && xs[len(xs)-1] == 0 {
		xs = xs[:len(xs)-1]
	}
	return xs
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	points := fs.String("points", "", "")
	file := fs.String("file", "", "")
	v := fs.Bool("v", false, "print the whole trace")
	must(fs.Parse(args))
	b, err := os.ReadFile(*file)
	must(err)
	var rep Replay
	must(json.Unmarshal(b, &rep))
	q := &pool{points: *points}
	r, err := q.do(&Job{Prop: rep.Property, Plan: rep.Plan, Verbose: true}, true)
	if err != nil {
		var cr *crash
		if errors.As(err, &cr) && rep.Crash {
			fmt.Println(cr.stderr)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, *file)
			os.Exit(1)
		}
		must(err)
	}
	if *v {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	h := fmt.Sprintf("%016x", r.Hash)
	if x := r.hit(rep.Property, rep.Rule); x != nil {
		fmt.Printf("%s %s: %s (at %s)\nschedule hash %s, recorded %s\n", rep.Property, x.Rule, x.Msg, x.At, h, rep.Hash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, *file)
		os.Exit(1)
	}
	fmt.Printf("%s: %s does not occur in this execution (schedule hash %s, recorded %s)\n", rep.Property, rep.Rule, h, rep.Hash)
}
