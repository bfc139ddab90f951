package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// gen makes plans. Every plan is a pure function of (property, seed).
type gen struct {
	r      *rng
	p      *Plan
	topics []string
	ids    []string
	uniq   int
	cons   []string
	far    bool // use far past and far future times
	pay    int  // payload richness: 0 none, 1 simple, 2 everything
	big    int  // large payloads left
}

type weighted struct {
	w    int
	name string
	f    func(g *gen)
}

var profiles = map[string]func(g *gen){
	"mem": profMem, "race": profRace, "poll": profPoll, "batch": profBatch, "snap": profSnap, "grace": profGrace, "fidelity": profFidelity,
	"disk": profDisk, "raw": profRaw, "sub": profSub, "ctx": profCtx, "net": profNet, "chore": profChore, "retention": profRetention,
	"page": profPage, "ready": profReady, "mongo": profMongo, "mongoidx": profMongoIdx, "mongorace": profMongoRace, "mongograce": profMongoGrace, "mongofail": profMongoFail, "mongosub": profMongoSub, "bulk": profBulk, "mongobulk": profMongoBulk,
	"mongochore": profMongoChore, "insert": profInsert, "startup": profStartup,
}

const mongoReady = true

// mixOf says which scenarios a property's check runs and how often.
var mixOf = map[string]map[string]int{
	"C01": {"race": 30, "mem": 25, "poll": 30, "chore": 10, "net": 5, "mongo": 20, "mongorace": 25},
	"C02": {"race": 10, "poll": 60, "mem": 10, "chore": 5, "mongo": 25, "bulk": 4},
	"C03": {"race": 10, "poll": 50, "mem": 10, "chore": 10, "mongo": 20, "mongorace": 12, "bulk": 4},
	"C04": {"race": 20, "mem": 40, "poll": 10, "ctx": 20, "chore": 10, "mongo": 15, "mongorace": 25},
	"C05": {"race": 20, "chore": 50, "poll": 10, "mem": 10, "snap": 5, "mongochore": 20, "mongofail": 5, "bulk": 10, "mongobulk": 4},
	"C06": {"race": 10, "mem": 20, "poll": 10, "chore": 15, "snap": 10, "grace": 5, "disk": 5, "sub": 10, "net": 5, "mongo": 12, "mongofail": 8, "bulk": 5},
	"C07": {"race": 25, "mem": 50, "insert": 10, "batch": 10, "net": 10, "mongo": 20, "mongorace": 10},
	"C08": {"race": 20, "insert": 55, "mem": 10, "batch": 10, "mongo": 25, "bulk": 6, "mongofail": 10},
	"C09": {"batch": 85, "snap": 10, "chore": 5, "bulk": 15},
	"C10": {"page": 50, "batch": 20, "mem": 10, "mongo": 20, "bulk": 12, "mongobulk": 5},
	"C11": {"retention": 70, "chore": 10, "mongochore": 20, "bulk": 15, "mongobulk": 4},
	"C12": {"snap": 100, "bulk": 8},
	"C13": {"grace": 80, "bulk": 5, "mongograce": 25},
	"C14": {"fidelity": 80, "grace": 10, "snap": 10, "bulk": 6},
	"C15": {"disk": 100, "bulk": 3},
	"C16": {"sub": 85, "mongosub": 15},
	"C17": {"ctx": 85, "sub": 5, "net": 10},
	"C18": {"raw": 85, "mongo": 15},
	"C19": {"mongo": 50, "mongorace": 20, "mongochore": 15, "mongofail": 15, "mongosub": 10, "mongobulk": 6},
	"C20": {"race": 10, "net": 35, "mem": 10, "raw": 15, "disk": 5, "grace": 5, "mongofail": 30},
	"C21": {"race": 10, "mem": 30, "poll": 10, "batch": 15, "net": 20, "insert": 10, "mongo": 15, "bulk": 6, "mongobulk": 2},
	"C22": {"chore": 45, "startup": 20, "mongochore": 25, "disk": 10},
	"C23": {"mongoidx": 100},
	"C24": {"ready": 70, "startup": 15, "grace": 15},
}

func genPlan(prop string, seed uint64, only string) *Plan {
	p := &Plan{Prop: prop, Seed: seed}
	g := &gen{r: newRng(mix(seed, 0x9e)), p: p}
	name := only
	if name == "" {
		m := mixOf[prop]
		var ks []string
		tot := 0
		for k, v := range m {
			if !mongoReady && (strings.HasPrefix(k, "mongo") || k == "ready") && len(m) > 1 {
				continue
			}
			ks = append(ks, k)
			tot += v
		}
		sort.Strings(ks)
		x := g.r.intn(tot)
		for _, k := range ks {
			if x < m[k] {
				name = k
				break
			}
			x -= m[k]
		}
	}
	f := profiles[name]
	if f == nil {
		must(fmt.Errorf("unknown scenario %q", name))
	}
	p.Scenario = name
	g.sched()
	f(g)
	return p
}

func (g *gen) sched() {
	r := g.r
	s := &g.p.Sched
	switch x := r.intn(100); {
	case x < 35:
		s.Policy, s.Switch = "sticky", pick(r, 20, 50, 100, 200, 400)
	case x < 75:
		s.Policy = "uniform"
	default:
		s.Policy, s.Switch = "pct", pick(r, 5, 10, 20, 50)
	}
	s.PointPct = pick(r, 100, 100, 60, 30, 10)
	s.PointSeed = r.u64()
	if r.pct(30) {
		s.PauseBP = pick(r, 20, 100, 300, 1000)
		s.PauseUS = pick(r, 500, 3000, 20000, 100000)
	}
	n := &g.p.Net
	n.Seed = r.u64()
	n.BaseUS = pick(r, 50, 200, 1000)
	n.JitterUS = pick(r, 0, 100, 2000, 20000)
	n.JitterPct = pick(r, 0, 10, 30)
}

func (g *gen) names(nt, ni int) {
	all := []string{"a", "b", "jobs", "m", "z-topic", "topic.with.dots", "日本", "sp ace", "A", "a:b", "a b?c&d"}
	g.topics = nil
	if g.r.pct(70) {
		base := []string{"a", "b", "c", "aa", "ab", "d"}
		g.topics = append(g.topics, base[:min(nt, len(base))]...)
	} else {
		off := g.r.intn(len(all))
		for i := 0; i < nt; i++ {
			g.topics = append(g.topics, all[(off+i)%len(all)])
		}
	}
	for i := 0; i < ni; i++ {
		g.ids = append(g.ids, fmt.Sprintf("t%d", i))
	}
	if g.r.pct(20) && ni > 1 {
		g.ids[g.r.intn(ni)] = pick(g.r, "id with space", "ü", "a:b", "x.y", "%41", "T0", "a?b#c&d=e", "+plus+")
	}
	g.cons = []string{"w1", "w2", "w3", ""}
}

func (g *gen) topic() string { return g.topics[g.r.intn(len(g.topics))] }
func (g *gen) id() string    { return g.ids[g.r.intn(len(g.ids))] }
func (g *gen) newID() string { g.uniq++; return fmt.Sprintf("u%d", g.uniq) }
func (g *gen) consumer() string {
	return g.cons[g.r.intn(len(g.cons))]
}

// randJSON builds a random JSON value.
func (g *gen) randJSON(depth int) any {
	r := g.r
	str := func() string {
		n := r.intn(6)
		var s []rune
		for i := 0; i < n; i++ {
			s = append(s, pick(r, 'a', 'Z', '0', '_', '.', '$', ' ', '"', '\\', '/', '\n', '\t', '\x01', '\x7f', 'é', '\u2028', '\ufffd', '\U0001f600', '<', '&'))
		}
		return string(s)
	}
	k := r.intn(10)
	if depth == 0 {
		k = r.intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.pct(50)
	case 2:
		return pick[any](r, 0, -1, 2147483647, 2147483648, -2147483649, int64(1)<<53, 0.1, -0.25, 1e21, 5e-324, 1.7976931348623157e308)
	case 3:
		return float64(r.intn(2000000)-1000000) / float64(pick(r, 1, 8, 1000))
	case 4, 5:
		return str()
	case 6, 7:
		v := []any{}
		for i := r.intn(4); i > 0; i-- {
			v = append(v, g.randJSON(depth-1))
		}
		return v
	}
	v := map[string]any{}
	for i := r.intn(4); i > 0; i-- {
		v[strings.TrimLeft(str(), "$")] = g.randJSON(depth - 1)
	}
	return v
}

func (g *gen) payload() json.RawMessage {
	r := g.r
	if g.pay == 0 || r.pct(40) {
		return nil
	}
	if g.big > 0 && r.pct(15) {
		g.big--
		return json.RawMessage(fmt.Sprintf("%s%d}", bigPrefix, pick(r, 5000, 40000, 70000, 140000, 300000)))
	}
	if g.pay == 1 {
		return json.RawMessage(pick(r, `"x"`, `1`, `{"k":"v"}`, `[1,2]`, `true`, `null`, `""`, `0`, `false`, `{}`, `[]`, `{"j":1}`))
	}
	if r.pct(30) {
		b, err := json.Marshal(g.randJSON(3))
		must(err)
		return b
	}
	return json.RawMessage(pick(r, `"x"`, `""`, `0`, `1`, `-1.5`, `1e300`, `1e-7`, `9007199254740991`, `123456789012`, `true`, `false`, `null`, `[]`, `{}`, `[[]]`, `[{}]`,
		`[null]`, `{"a":null}`, `{"a":[]}`, `{"a":{}}`, `{"a":{"b":[1,"2",{"c":false}]}}`, `[1,[2,[3,[]]]]`, `"日本\u0000x"`, `"<&>\u2028"`,
		`{"":""}`, `{"a.b":1,"c":2}`, `{"_id":1}`, `[true,false,null,0,""]`, `{"k":[[],{}]}`, `[""]`, `{"nested":{"deep":{"er":[{"x":[]}]}}}`))
}

// schedule picks a scheduled time around now, in the form "now+…" or absolute.
func (g *gen) when() (sched, deferd string) {
	r := g.r
	switch x := r.intn(100); {
	case x < 40:
		return "", ""
	case x < 50:
		return "", pick(r, "1ms", "20ms", "300ms", "2s", "0s", "-1s")
	case x < 70:
		return fmt.Sprintf("now-%dms", r.intn(3000)), ""
	case x < 80:
		return fmt.Sprintf("now+%dms", r.intn(1500)), ""
	case x < 85:
		return fmt.Sprintf("now+%dh", 1+r.intn(50)), ""
	case x < 90:
		return "now-1000ms", ""
	}
	if g.far {
		return pick(r, "1969-12-31T23:59:59.999Z", "1970-01-01T00:00:00Z", "1960-05-05T00:00:00.000000001Z", "0001-01-01T00:00:00Z", "1900-01-01T00:00:00Z", "0800-01-01T00:00:00Z", "2999-01-01T00:00:00Z", "9999-12-31T23:59:59.999Z"), ""
	}
	return "now-1000ms", ""
}

func (g *gen) spec(id, topic string) TaskSpec {
	s := TaskSpec{ID: id, Topic: topic, Payload: g.payload()}
	s.Sched, s.Defer = g.when()
	if g.r.pct(30) {
		s.Producer = pick(g.r, "p1", "p2")
	}
	if g.r.pct(8) {
		s.State = pick(g.r, 1, 2, 3)
		if g.r.pct(70) {
			s.Nonce = pick(g.r, "n-user", "N2")
			s.Consumer = g.consumer()
			s.Consumed = pick(g.r, "now-1s", "now-100ms", "now-5h")
			s.Deadline = pick(g.r, "now-1s", "now+200ms", "now+5s", "now+1h")
			if g.far && g.r.pct(50) {
				s.Deadline = pick(g.r, "1969-01-01T00:00:00Z", "1950-01-01T00:00:00Z", "0001-01-01T00:00:01Z")
			}
		}
	}
	return s
}

func (g *gen) timeout() string {
	return pick(g.r, "", "10ms", "100ms", "300ms", "1s", "3s", "30s", "1h", "0s", "-1s")
}

func ip(i int) *int { return &i }

// commit makes a commit of one of the client's claims (or somebody else's).
func (g *gen) commit(o *Op) {
	r := g.r
	o.K = "commit"
	k := r.intn(3)
	switch x := r.intn(100); {
	case x < 60:
		o.Nonce, o.ID = fmt.Sprintf("@%d", k), fmt.Sprintf("@%d", k)
	case x < 75:
		o.Nonce, o.ID = fmt.Sprintf("#%d", r.intn(40)), fmt.Sprintf("@%d", k)
	case x < 85:
		o.Nonce, o.ID = fmt.Sprintf("@%d", k), g.id()
	case x < 95:
		o.Nonce, o.ID = "", g.id()
	default:
		o.Nonce, o.ID = "bogus", g.id()
	}
	if r.pct(50) {
		o.State = ip(r.intn(4))
	}
	if r.pct(20) {
		o.Topic = g.topic()
	}
	if r.pct(15) {
		o.Sched, _ = g.when()
	}
	if r.pct(20) {
		o.Defer = pick(r, "10ms", "100ms", "1s", "0s")
	}
	if r.pct(30) {
		o.Payload = g.payload()
	}
}

// op makes an operation of kind k.
func (g *gen) op(k string) Op {
	r := g.r
	o := Op{K: k}
	switch k {
	case "insert", "upsert":
		id := g.id()
		t := g.topic()
		o.ID, o.Topic = id, t
		o.Tasks = []TaskSpec{g.spec(id, t)}
		if r.pct(15) {
			o.Plain = true
			o.Tasks[0].ID = ""
			if r.pct(50) {
				o.Tasks[0].Topic = ""
			}
		}
	case "inserts", "upserts":
		n := r.rangeInt(1, 5)
		if r.pct(4) {
			n = 0
		}
		o.Topic = g.topic()
		for i := 0; i < n; i++ {
			id := g.id()
			if r.pct(50) {
				id = g.newID()
			}
			o.Tasks = append(o.Tasks, g.spec(id, g.topic()))
		}
		if r.pct(15) {
			o.Plain = true
			for i := range o.Tasks {
				if r.pct(50) {
					o.Tasks[i].Topic = ""
				}
			}
		}
	case "get", "delete", "getp", "revoke":
		o.ID = g.id()
		if r.pct(30) {
			o.ID = fmt.Sprintf("@%d", r.intn(3))
		}
		if r.pct(15) {
			o.Plain, o.Topic = true, g.topic()
		}
	case "commit":
		g.commit(&o)
		o.Plain = r.pct(15)
	case "poll", "claim", "fclaim", "cpoll":
		o.Topic = g.topic()
		o.Consumer = g.consumer()
		o.Timeout = g.timeout()
		if r.pct(15) {
			o.Timeout = ""
			o.Deadline = pick(r, "now+50ms", "now+1s", "now-1s", "now+1h")
			if g.far && r.pct(30) {
				o.Deadline = pick(r, "1969-12-31T00:00:00Z", "1900-01-01T00:00:00Z")
			}
		}
		if k != "poll" && k != "cpoll" {
			o.ID = g.id()
		}
		if k != "cpoll" && r.pct(20) {
			o.Plain = true
			o.Query = r.pct(40)
			o.V0 = r.pct(30)
		}
	case "ccommit":
		o.CtxN = r.intn(2)
		g.settings(&o)
	case "revokes", "topic", "deltopic", "deltasks":
		o.Topic = g.topic()
		o.Plain = r.pct(15)
	case "listp", "listt":
		o.Topic = g.topic()
		o.Limit, o.Offset = r.rangeInt(1, 20), pick(r, 0, 0, 1, 3, 7)
		o.Plain = r.pct(25)
		o.NoLimit = o.Plain && r.pct(40)
	case "topics":
		o.Limit, o.Offset = r.rangeInt(1, 20), pick(r, 0, 0, 1, 3)
		o.Plain = r.pct(25)
		o.NoLimit = o.Plain && r.pct(40)
	case "sleep":
		o.SleepMS = pick(r, 1, 5, 20, 60, 200, 600)
	case "deltopics", "live", "ready", "healthz", "metrics":
		if k == "healthz" || k == "metrics" {
			o.Plain = true
		}
	}
	return o
}

func (g *gen) settings(o *Op) {
	r := g.r
	n := pick(r, 0, 0, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		s := pick(r, "topic:", "state:", "abstain", "archive", "retry:", "defer:", "resched:", "sched:", "payload", "force", "nonce:bogus", "reset")
		switch s {
		case "topic:":
			s += g.topic()
		case "state:":
			s += fmt.Sprint(r.intn(4))
		case "retry:", "defer:":
			s += pick(r, "10ms", "200ms", "2s", "0s")
		case "resched:", "sched:":
			s += pick(r, "now+100ms", "now-1s", "now+1h")
		case "payload":
			o.Payload = json.RawMessage(pick(r, `"new"`, `{"a":1}`, `[1]`, `7`))
		case "force", "nonce:bogus":
			if r.pct(60) {
				s = "archive"
			}
		}
		o.Do = append(o.Do, s)
	}
}

// ops makes n operations with the given kind weights ("kind", weight, …).
func (g *gen) opsOf(n int, kw ...any) []Op {
	tot := 0
	for i := 1; i < len(kw); i += 2 {
		tot += kw[i].(int)
	}
	var out []Op
	for len(out) < n {
		x := g.r.intn(tot)
		for i := 0; i < len(kw); i += 2 {
			if x < kw[i+1].(int) {
				out = append(out, g.op(kw[i].(string)))
				break
			}
			x -= kw[i+1].(int)
		}
	}
	return out
}

func (g *gen) clients(n, ops int, kw ...any) {
	for i := 0; i < n; i++ {
		g.p.Clients = append(g.p.Clients, g.opsOf(g.r.rangeInt(ops/2, ops), kw...))
	}
}

func (g *gen) memNode() NodeCfg {
	r := g.r
	n := NodeCfg{Engine: "memdb", ChoreMS: pick(r, 100, 300, 1000, 3000), DelayMS: pick(r, 0, 0, 50, 400), Random: r.pct(30)}
	if r.pct(25) {
		n.SkewMS = pick(r, -3600000, -5000, 7000, 86400000)
	}
	return n
}

// background clock and scheduling faults that never excuse anything.
func (g *gen) stalls(n int) {
	r := g.r
	for i := 0; i < n; i++ {
		if r.pct(50) {
			g.p.Faults = append(g.p.Faults, Fault{K: "stallone", On: "step", N: r.rangeInt(20, 3000), A: pick(r, 1, 20, 200, 1500), B: r.intn(8)})
		} else {
			g.p.Faults = append(g.p.Faults, Fault{K: "stall", On: "step", N: r.rangeInt(20, 3000), A: pick(r, 1, 20, 200, 1500)})
		}
	}
}

func (g *gen) cancels(pc int) {
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			o := &g.p.Clients[i][j]
			if o.K != "sleep" && o.K != "ccommit" && g.r.pct(pc) {
				if g.r.pct(60) {
					o.CancelMS = pick(g.r, 1, 1, 2, 5, 20)
				} else {
					o.TimeoutMS = pick(g.r, 1, 2, 5, 50)
				}
			}
		}
	}
}

func (g *gen) preload(n int) {
	for i := 0; i < n; i++ {
		g.p.Preload = append(g.p.Preload, g.op("insert"))
	}
}

var allKinds = []any{"insert", 14, "upsert", 8, "inserts", 4, "upserts", 3, "get", 8, "delete", 4, "commit", 16, "poll", 16, "claim", 6, "fclaim", 4,
	"revoke", 5, "getp", 3, "listt", 3, "listp", 3, "topics", 2, "topic", 2, "revokes", 1, "deltasks", 1, "deltopic", 1, "deltopics", 1, "sleep", 8}

// ----------------------------------------------------------------- scenarios

// mem: every operation, high contention on few tasks.
func profMem(g *gen) {
	r := g.r
	g.far = r.pct(30)
	g.pay = 1
	g.names(r.rangeInt(1, 3), r.rangeInt(1, 6))
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.preload(r.intn(6))
	g.clients(r.rangeInt(2, 6), 16, allKinds...)
	if r.pct(30) {
		g.stalls(r.rangeInt(1, 3))
	}
	if r.pct(20) {
		g.cancels(10)
	}
	g.clockJumps(10)
	g.p.End = EndCfg{Drain: r.pct(40), Paging: r.pct(40), Metrics: r.pct(60)}
}

func (g *gen) clockJumps(pc int) {
	r := g.r
	if r.pct(pc) {
		for i := 0; i < 1+r.intn(2); i++ {
			g.p.Faults = append(g.p.Faults, Fault{K: "clock", On: "step", N: r.rangeInt(50, 3000), A: pick(r, -60000, -500, 300, 5000, 3600000, -3600000)})
		}
	}
}

// race: many requests for one or two tasks without pauses in between.
func profRace(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(1, 2))
	n := g.memNode()
	n.SkewMS = 0
	n.ChoreMS = pick(r, 3, 20, 100, 1000)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.rangeInt(1, 3))
	kinds := [][]any{
		{"claim", 40, "commit", 40, "upsert", 8, "revoke", 4, "get", 4},
		{"poll", 35, "claim", 10, "commit", 35, "upsert", 6, "revoke", 6, "fclaim", 4},
		{"claim", 20, "commit", 30, "fclaim", 10, "revoke", 10, "delete", 5, "insert", 15, "get", 8, "getp", 4},
		{"insert", 25, "upsert", 15, "delete", 20, "get", 10, "poll", 15, "commit", 15, "inserts", 5, "upserts", 5},
	}
	k := kinds[r.intn(len(kinds))]
	g.clients(r.rangeInt(3, 7), 10, k...)
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			o := &g.p.Clients[i][j]
			switch o.K {
			case "poll", "claim", "fclaim":
				if o.Deadline == "" && r.pct(60) {
					o.Timeout = pick(r, "1ms", "5ms", "30ms", "1h")
				}
			case "insert", "upsert":
				if r.pct(60) {
					o.Tasks[0].Sched, o.Tasks[0].Defer = "now-1000ms", ""
				}
			case "commit":
				if r.pct(40) {
					o.State = ip(0)
					o.Sched, o.Defer = "", ""
				}
			}
		}
	}
	s := &g.p.Sched
	if r.pct(60) {
		s.PauseBP = pick(r, 100, 300, 1000)
		s.PauseUS = pick(r, 1000, 5000, 20000)
	}
	g.p.Net.JitterUS = pick(r, 0, 100, 2000)
	g.p.End = EndCfg{Drain: r.pct(20), Metrics: r.pct(30)}
}

// poll: consumers compete for tasks of several topics.
func profPoll(g *gen) {
	r := g.r
	g.far = r.pct(50)
	g.names(r.rangeInt(1, 4), r.rangeInt(3, 12))
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.preload(r.intn(12))
	kinds := [][]any{
		{"poll", 50, "commit", 20, "upsert", 15, "insert", 10, "claim", 5, "sleep", 5},
		{"poll", 60, "insert", 20, "commit", 5, "delete", 5, "revoke", 5, "sleep", 5},
		{"poll", 40, "upserts", 20, "fclaim", 5, "commit", 15, "revokes", 2, "deltopic", 2, "sleep", 10},
	}
	g.clients(r.rangeInt(2, 8), 12, kinds[r.intn(3)]...)
	if r.pct(30) {
		g.stalls(r.rangeInt(1, 3))
	}
	g.clockJumps(10)
	g.p.End = EndCfg{Drain: r.pct(70), Metrics: r.pct(30)}
}

// batch: multi-task operations against readers and pollers.
func profBatch(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 3), r.rangeInt(2, 8))
	n := g.memNode()
	if r.pct(30) {
		n.SnapMS = pick(r, 50, 300)
	}
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.intn(10))
	g.clients(r.rangeInt(1, 3), 8, "inserts", 25, "upserts", 25, "deltopic", 8, "deltasks", 8, "revokes", 12, "deltopics", 6, "sleep", 5)
	g.clients(r.rangeInt(1, 4), 14, "listt", 20, "listp", 12, "topics", 15, "topic", 12, "poll", 20, "get", 10, "commit", 10, "insert", 5)
	if r.pct(40) {
		// Batches with an invalid element.
		for i := range g.p.Clients {
			for k := 0; k < 2; k++ {
				g.insertOp(i, g.badBatch())
			}
		}
	}
	if r.pct(30) {
		g.stalls(r.rangeInt(1, 3))
	}
	if r.pct(15) {
		g.cancels(15)
	}
	g.p.End = EndCfg{Paging: r.pct(60), Metrics: r.pct(50)}
	if n.SnapMS > 0 {
		g.p.End.Restart = pick(r, "", "graceful", "kill")
	}
}

func (g *gen) insertOp(c int, o Op) {
	ops := g.p.Clients[c]
	i := g.r.intn(len(ops) + 1)
	ops = append(ops, Op{})
	copy(ops[i+1:], ops[i:])
	ops[i] = o
	g.p.Clients[c] = ops
}

func (g *gen) badBatch() Op {
	r := g.r
	good := fmt.Sprintf(`{"_id":%q,"topic":%q}`, g.newID(), g.topic())
	good2 := fmt.Sprintf(`{"_id":%q,"topic":%q}`, g.id(), g.topic())
	bad := pick(r, `{"_id":"x1","state":9,"topic":"a"}`, `{"topic":"a"}`, `{"_id":"","topic":"a"}`, `{"_id":"x2","topic":"a","defer":"soon"}`, `null`, `{"_id":"x3","topic":"a","state":"pending"}`, `{"_id":"x4","topic":"a","scheduled":"yesterday"}`, `7`)
	els := []string{good, good2}
	i := r.intn(3)
	els = append(els[:i], append([]string{bad}, els[i:]...)...)
	body := `{"data":[` + els[0]
	for _, e := range els[1:] {
		body += "," + e
	}
	body += "]}"
	return Op{K: "raw", Raw: &RawSpec{Method: pick(r, "POST", "PUT"), Path: "/v1/topics/" + pick(r, "a", "b") + "/tasks", Body: body, Expect: "bad"}}
}

// insert: concurrent creation of the same IDs.
func profInsert(g *gen) {
	r := g.r
	g.pay = 1
	if r.pct(8) {
		g.big = r.rangeInt(1, 3)
	}
	g.names(r.rangeInt(1, 3), r.rangeInt(1, 4))
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.clients(r.rangeInt(2, 7), 12, "insert", 40, "inserts", 20, "upsert", 12, "upserts", 8, "delete", 10, "get", 8, "poll", 4, "commit", 4, "listt", 2)
	if r.pct(25) {
		g.cancels(15)
	}
	g.p.End = EndCfg{Paging: r.pct(50), Metrics: r.pct(60)}
}

// page: listings and counts.
func profPage(g *gen) {
	r := g.r
	g.names(r.rangeInt(2, 6), r.rangeInt(5, 25))
	n := g.memNode()
	n.MaxLimit = pick(r, 0, 0, 3, 7, 20)
	n.MaxOffset = pick(r, 0, 0, 0, 5, 50)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.rangeInt(5, 30))
	g.clients(r.rangeInt(1, 4), 20, "listt", 25, "listp", 20, "topics", 20, "topic", 15, "poll", 8, "upsert", 4, "delete", 3, "deltasks", 2, "revokes", 3, "commit", 3, "deltopics", 1)
	if r.pct(50) {
		bad := [][2]string{{"-1", "0"}, {"5", "-1"}, {"101", "0"}, {"1000000", "0"}, {"5", "10001"}, {"x", "0"}, {"5", "y"}, {"", "-3"}, {"99999999999999999999", "0"}}
		for i := range g.p.Clients {
			b := bad[r.intn(len(bad))]
			path := pick(r, "/v1/topics", "/v1/topics/a/tasks", "/v1/topics/a/promises", "/topics")
			g.insertOp(i, Op{K: "raw", Raw: &RawSpec{Method: "GET", Path: path + "?limit=" + b[0] + "&offset=" + b[1]}})
		}
	}
	g.p.End = EndCfg{Paging: true}
}

// snap: snapshots with kills and power losses.
func profSnap(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 3), r.rangeInt(3, 10))
	n := g.memNode()
	n.SkewMS = 0
	n.SnapMS = pick(r, 1, 100, 500, 2000)
	n.ChoreMS = pick(r, 50, 200, 1000)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.intn(8))
	g.clients(r.rangeInt(1, 4), 20, "insert", 15, "upsert", 10, "inserts", 6, "upserts", 4, "delete", 5, "poll", 15, "commit", 12, "get", 6, "deltasks", 1, "revokes", 1, "deltopics", 1, "sleep", 20)
	k := r.rangeInt(1, 4)
	for i := 0; i < k; i++ {
		f := Fault{K: pick(r, "kill", "power", "power"), A: pick(r, 0, 10, 300), B: r.intn(101), C: r.intn(101)}
		switch r.intn(5) {
		case 0:
			f.On, f.N = "step", r.rangeInt(50, 4000)
		case 1:
			f.On, f.N = pick(r, "fs:open", "fs:write", "fs:close", "fs:rename", "fs:sync"), r.rangeInt(1, 12)
		case 2:
			f.On, f.N = "fs#0", r.rangeInt(1, 60)
		case 3:
			f.On, f.N = "time", r.rangeInt(1, 4000)
		default:
			f.On, f.N = "save", r.rangeInt(1, 10)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	if r.pct(25) {
		g.stalls(1)
	}
	g.p.End = EndCfg{Restart: pick(r, "graceful", "kill", "power", "kill"), Paging: r.pct(30), WaitSec: pick(r, 0, 0, 6)}
	g.p.End.WorkSec = pick(r, 0, 1, 5)
}

// grace: SIGTERM or interrupt at any point.
func profGrace(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 3), r.rangeInt(3, 10))
	n := g.memNode()
	n.SkewMS = 0
	if r.pct(85) {
		n.SnapMS = pick(r, 1, 200, 5000, 300000)
	}
	n.ChoreMS = pick(r, 50, 300, 5000, 0)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.intn(8))
	g.clients(r.rangeInt(2, 6), 14, "insert", 20, "upsert", 10, "inserts", 8, "upserts", 6, "delete", 4, "poll", 15, "commit", 14, "get", 4, "listt", 3, "live", 1, "sleep", 5)
	k := r.rangeInt(1, 3)
	for i := 0; i < k; i++ {
		f := Fault{K: pick(r, "term", "int"), A: pick(r, 0, 20, 500)}
		switch r.intn(4) {
		case 0:
			f.On, f.N = "step", r.rangeInt(50, 3000)
		case 1:
			f.On, f.N = "serve", r.rangeInt(1, 40)
		case 2:
			f.On, f.N = "commit", r.rangeInt(1, 30)
		default:
			f.On, f.N = "time", r.rangeInt(1, 2000)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	if r.pct(30) {
		g.stalls(r.rangeInt(1, 2))
	}
	if r.pct(20) {
		g.cancels(10)
	}
	g.slowBodies(35)
	g.p.End = EndCfg{Restart: pick(r, "", "graceful")}
}

// slowBodies sends some requests in two parts.
func (g *gen) slowBodies(pc int) {
	if g.r.pct(pc) {
		for i := 0; i < 3; i++ {
			g.p.Faults = append(g.p.Faults, Fault{K: "net-delay", On: "seg", N: g.r.rangeInt(3, 60), A: pick(g.r, 5, 50, 900, 4000, 11000, 40000), B: pick(g.r, 0, 50, 97)})
		}
		if g.r.pct(60) {
			g.p.Faults = append(g.p.Faults, Fault{K: pick(g.r, "term", "int"), On: "slowreq", N: g.r.rangeInt(1, 3), A: pick(g.r, 0, 500), C: pick(g.r, 1, 20, 40)})
		}
	}
}

// fidelity: every kind of content through a restart.
func profFidelity(g *gen) {
	r := g.r
	g.pay = 2
	if r.pct(8) {
		g.big = r.rangeInt(1, 3)
	}
	g.far = true
	g.names(r.rangeInt(1, 3), r.rangeInt(5, 25))
	n := g.memNode()
	n.SkewMS = 0
	n.SnapMS = pick(r, 1, 500, 60000)
	n.ChoreMS = pick(r, 100, 2000)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.rangeInt(4, 14))
	g.clients(r.rangeInt(1, 3), 14, "insert", 18, "upsert", 18, "inserts", 8, "upserts", 8, "poll", 12, "commit", 22, "claim", 6, "fclaim", 3, "getp", 3, "get", 5)
	if r.pct(50) {
		for i := 0; i < 1+r.intn(2); i++ {
			g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "term", "term", "kill"), On: pick(r, "serve", "commit"), N: r.rangeInt(3, 30), A: 0})
		}
	}
	g.p.End = EndCfg{Restart: "graceful", WaitSec: pick(r, 0, 3), Drain: r.pct(20)}
}

// disk: failing disks.
func profDisk(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(3, 8))
	n := g.memNode()
	n.SkewMS = 0
	n.SnapMS = pick(r, 1, 100, 500, 20000, 300000)
	n.ChoreMS = pick(r, 50, 200, 500)
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.intn(6))
	g.clients(r.rangeInt(1, 3), 16, "insert", 15, "upsert", 12, "inserts", 4, "delete", 5, "poll", 20, "commit", 12, "get", 5, "sleep", 25)
	k := r.rangeInt(1, 5)
	for i := 0; i < k; i++ {
		f := Fault{A: pick(r, 50, 400, 2000)}
		switch r.intn(6) {
		case 0:
			f.K = "disk-full"
			f.B = r.intn(2)
		case 1:
			f.K, f.S = "disk-eio", pick(r, "open", "write", "sync", "close", "rename", "read")
		case 2:
			f.K, f.On, f.N, f.S = "disk-err", "fs#0", r.rangeInt(1, 60), pick(r, "eio", "enospc")
		case 3:
			f.K, f.On, f.N = "disk-short", "fs#0", r.rangeInt(1, 60)
		case 4:
			f.K, f.A, f.B, f.C = pick(r, "kill", "power"), 10, r.intn(101), r.intn(101)
			f.On, f.N = "fs#0", r.rangeInt(5, 60)
		default:
			f.K, f.A = "term", 10
		}
		if f.On == "" {
			switch r.intn(3) {
			case 0:
				f.On, f.N = "step", r.rangeInt(50, 3000)
			case 1:
				f.On, f.N = "fs#0", r.rangeInt(1, 50)
			default:
				f.On, f.N = "time", r.rangeInt(1, 4000)
			}
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	g.p.End = EndCfg{Restart: pick(r, "graceful", "kill", "power"), WaitSec: 6, WorkSec: pick(r, 0, 3), Drain: r.pct(20)}
}

// raw: malformed and truncated requests next to normal traffic.
func profRaw(g *gen) {
	r := g.r
	g.pay = 1
	if r.pct(15) {
		g.big = r.rangeInt(1, 3)
	}
	g.names(r.rangeInt(1, 2), r.rangeInt(2, 5))
	g.topics = []string{"a", "b"}[:len(g.topics)]
	for i := range g.ids {
		g.ids[i] = fmt.Sprintf("t%d", i)
	}
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.preload(r.rangeInt(1, 6))
	g.clients(r.rangeInt(1, 2), 10, "insert", 10, "poll", 10, "commit", 10, "get", 10, "upsert", 5, "live", 2, "inserts", 4)
	for i := 0; i < r.rangeInt(1, 2); i++ {
		var ops []Op
		for j := 0; j < r.rangeInt(4, 14); j++ {
			ops = append(ops, g.rawOp())
		}
		g.p.Clients = append(g.p.Clients, ops)
	}
	g.slowBodies(15)
	g.p.End = EndCfg{Paging: r.pct(20), Metrics: r.pct(30)}
}

func (g *gen) rawOp() Op {
	r := g.r
	id, id2 := g.id(), g.newID()
	tp := pick(r, "a", "b")
	taskBad := []string{`{`, `[]`, `"x"`, `{"_id":5}`, `{"state":"done"}`, `{"state":4}`, `{"state":-1}`, `{"defer":"1"}`, `{"defer":"1y"}`, `{"scheduled":"tomorrow"}`,
		`{"scheduled":5}`, `{"topic":7}`, `{"_id":"other-id"}`, `{"state":1.5}`, `{"nonce":{}}`, `{"deadline":"2020-13-01T00:00:00Z"}`, `{"consumer":1}`, `{"payload":`, `{"state":99999999999}`, `nul`}
	patchBad := []string{`{`, `[]`, `{"state":4}`, `{"state":-7}`, `{"state":"x"}`, `{"defer":"abc"}`, `{"scheduled":"x"}`, `{"nonce":5}`, `{"topic":[]}`, `{"defer":5}`, `{"state":2`, `{"nonce":"x","state":}`, `7`, `"str"`, `{"scheduled":""}`}
	promBad := []string{`{`, `[]`, `{"timeout":"abc"}`, `{"deadline":"x"}`, `{"timeout":5}`, `{"consumer":[]}`, `{"_id":7}`, `{"timeout":"10"}`, `{"consumer":"w`, `"x"`, `{"deadline":12}`}
	batchBad := []string{`{`, `[]`, `{"data":5}`, `{"data":{}}`, `{"data":[5]}`, `{"data":[null]}`, `{"data":["x"]}`, `{"data":[{}]}`, `{"data":[{"_id":""}]}`, fmt.Sprintf(`{"data":[{"_id":%q},{"_id":"q","state":8}]}`, id2),
		fmt.Sprintf(`{"data":[{"_id":%q},{"_id":"q","defer":"zz"}]}`, id2), fmt.Sprintf(`{"data":[{"_id":%q},null]}`, id2), fmt.Sprintf(`{"data":[{"_id":%q},{"_id":"q"`, id2), `{"data":[{"_id":"a1","topic":"a"},{"_id":7}]}`}
	o := Op{K: "raw", Raw: &RawSpec{Expect: "bad"}}
	w := o.Raw
	base := pick(r, "/v1", "/v1", "")
	switch r.intn(14) {
	case 0, 1:
		w.Method, w.Path, w.Body = pick(r, "POST", "PUT"), base+"/topics/"+tp+"/tasks/"+pick(r, id, id2), taskBad[r.intn(len(taskBad))]
	case 2, 3:
		w.Method, w.Path, w.Body = "PATCH", base+"/topics/"+tp+"/tasks/"+id, patchBad[r.intn(len(patchBad))]
	case 4, 5:
		w.Method, w.Path, w.Body = pick(r, "POST", "PUT"), base+"/topics/"+tp+"/promises/"+id, promBad[r.intn(len(promBad))]
	case 6:
		w.Method, w.Path, w.Body = "POST", base+"/topics/"+tp+"/promises", promBad[r.intn(len(promBad))]
	case 7, 8:
		w.Method, w.Path, w.Body = pick(r, "POST", "PUT"), base+"/topics/"+tp+"/tasks", batchBad[r.intn(len(batchBad))]
	case 9: // query parameters that do not parse
		w.Method, w.Path = "POST", base+"/topics/"+tp+"/promises?"+pick(r, "timeout=abc", "deadline=yesterday", "timeout=5", "deadline=12")
	case 10, 11, 12: // cut off
		good := []RawSpec{
			{Method: "POST", Path: base + "/topics/" + tp + "/tasks/" + id2, Body: fmt.Sprintf(`{"_id":%q,"topic":%q,"payload":{"a":[1,2,3]}}`, id2, tp)},
			{Method: "PUT", Path: base + "/topics/" + tp + "/tasks/" + id, Body: fmt.Sprintf(`{"_id":%q,"topic":%q,"payload":"cut"}`, id, tp)},
			{Method: "PATCH", Path: base + "/topics/" + tp + "/tasks/" + id, Body: `{"state":3,"payload":"cut"}`},
			{Method: "PATCH", Path: base + "/topics/" + tp + "/tasks/" + id, Body: `{"state": 0 }`},
			{Method: "POST", Path: base + "/topics/" + tp + "/promises", Body: `{"consumer":"cut","timeout":"1h"}`},
			{Method: "PUT", Path: base + "/topics/" + tp + "/promises/" + id, Body: `{"consumer":"cut","timeout":"1h"}`},
			{Method: "POST", Path: base + "/topics/" + tp + "/tasks", Body: fmt.Sprintf(`{"data":[{"_id":%q},{"_id":"%sx"}]}`, id2, id2)},
			{Method: "PUT", Path: base + "/topics/" + tp + "/tasks", Body: fmt.Sprintf(`{"data":[{"_id":%q},{"_id":"%sx"}]}`, id, id2)},
		}
		x := good[r.intn(len(good))]
		*w = x
		w.Expect = ""
		w.Cut = r.rangeInt(1, len(x.Body)-1)
		w.HalfClose = r.pct(50)
		w.Chunked = r.pct(30)
		if r.pct(15) {
			w.Hang = true
			o.TimeoutMS = pick(r, 50, 2000)
		}
	default:
		w.Expect = "any"
		switch r.intn(5) {
		case 0:
			w.Method, w.Path = pick(r, "GET", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE"), pick(r, "/", "/v1", "/v2/topics", "/v1/topics/a/tasks/x/y", "/v1/nope", "//", "/v1/../v1/livez", "/v1/topics/%zz", "/v1/topics/%2e%2e/tasks/nope")
		case 1:
			w.Bytes = pick(r, "GARBAGE\r\n\r\n", "GET /v1/livez HTTP/9.9\r\n\r\n", "GET /v1/livez HTTP/1.1\r\n\r\n", "\x00\x01\x02\r\n\r\n", "POST /v1/topics/a/tasks/t0 HTTP/1.1\r\nHost: n0\r\nContent-Length: abc\r\n\r\n")
		case 2:
			w.Method, w.Path, w.Body = "POST", "/v1/topics/a/tasks/"+id2, `{"payload":`+deep(r.rangeInt(10, 2000))+`}`
			w.Expect = ""
		case 3:
			w.Method, w.Path = "GET", "/v1/topics/a/tasks/"+pick(r, "nope", "%F0%9F%98%80", "a%2Fb", "%25")
		default:
			w.Method, w.Path, w.Body = "PATCH", "/v1/topics/a/tasks/"+id, `{"nonce":"`+deepS(r.rangeInt(100, 5000))+`"}`
			w.Expect = ""
		}
	}
	return o
}

func deep(n int) string {
	b := make([]byte, 0, 2*n+1)
	for i := 0; i < n; i++ {
		b = append(b, '[')
	}
	for i := 0; i < n; i++ {
		b = append(b, ']')
	}
	return string(b)
}

func deepS(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'n'
	}
	return string(b)
}

// sub: subscriptions with handlers that fail, overrun, commit by themselves.
func profSub(g *gen) {
	n := g.memNode()
	n.SkewMS = 0
	g.subs(n)
}

func (g *gen) subs(n NodeCfg) {
	r := g.r
	g.names(r.rangeInt(1, 2), r.rangeInt(4, 12))
	n.ChoreMS = pick(r, 100, 500, 2000)
	g.p.Nodes = []NodeCfg{n}
	g.pay = 1
	for i := 0; i < r.rangeInt(1, 6); i++ {
		g.p.Preload = append(g.p.Preload, g.op("insert"))
	}
	ns := r.rangeInt(1, 3)
	for i := 0; i < ns; i++ {
		s := SubCfg{Topic: g.topic(), Consumer: g.consumer(), Timeout: pick(r, "", "500ms", "2s", "10s", "1h"), Concurrency: pick(r, 0, 1, 2, 3, 5),
			DelayMS: pick(r, 0, 10, 100, 1000), PollMS: pick(r, 0, 0, 50, 500), DrainMS: pick(r, 0, 50, 500), ErrMS: pick(r, 0, 100, 3000)}
		if r.pct(40) {
			s.CancelMS = r.rangeInt(1, 6000)
		}
		if r.pct(20) {
			s.ClientTimeoutMS = pick(r, 500, 5000)
		}
		for j := 0; j < r.rangeInt(1, 4); j++ {
			h := HandlerCfg{WorkMS: pick(r, 0, 0, 5, 100, 800, 3000)}
			if r.pct(40) {
				var o Op
				g.settings(&o)
				h.Do, h.Payload = o.Do, o.Payload
			}
			if r.pct(25) {
				h.Commits = r.rangeInt(1, 2)
			}
			s.Handler = append(s.Handler, h)
		}
		g.p.Subs = append(g.p.Subs, s)
	}
	g.clients(r.rangeInt(1, 3), 12, "insert", 30, "upsert", 15, "sleep", 30, "poll", 5, "fclaim", 5, "revoke", 5, "delete", 4, "deltasks", 1, "commit", 5)
	g.p.End.WorkSec = r.rangeInt(2, 12)
	g.p.End.WaitSec = 10
	g.p.MaxSteps = 160000
	if r.pct(40) {
		for i := 0; i < r.rangeInt(1, 4); i++ {
			g.p.Faults = append(g.p.Faults, g.netFault())
		}
	}
	if r.pct(25) {
		g.p.Faults = append(g.p.Faults, g.gateway())
	}
	if n.Engine == "memdb" && r.pct(15) {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "term"), On: "serve", N: r.rangeInt(2, 60), A: pick(r, 0, 500, 4000)})
	}
	if r.pct(20) {
		g.stalls(1)
	}
}

// gateway makes a front proxy answer in place of the server, once or for a while.
func (g *gen) gateway() Fault {
	r := g.r
	return Fault{K: "gateway", On: "gate", N: r.rangeInt(1, 60), A: r.intn(len(gateAnswers)), B: pick(r, 0, 0, 1), C: pick(r, 0, 0, 200, 3000, 20000)}
}

func (g *gen) netFault() Fault {
	r := g.r
	switch r.intn(8) {
	case 6, 7:
		return g.gateway()
	case 0:
		return Fault{K: "partition", On: "time", N: r.rangeInt(1, 3000), A: pick(r, 50, 500, 5000), S: g.p.hostOfClient(r)}
	case 1:
		return Fault{K: "net-reset", On: "seg", N: r.rangeInt(1, 200), A: r.intn(101), B: r.intn(101)}
	case 2:
		return Fault{K: "net-eof", On: "seg", N: r.rangeInt(1, 200), A: r.intn(101), B: r.intn(101)}
	case 3:
		return Fault{K: "net-silence", On: "seg", N: r.rangeInt(1, 200), A: r.intn(101), B: r.intn(101)}
	}
	return Fault{K: "net-delay", On: "seg", N: r.rangeInt(1, 200), A: pick(r, 5, 100, 2000, 8000), B: r.intn(101)}
}

func (p *Plan) hostOfClient(r *rng) string {
	n := len(p.Clients) + len(p.Subs)
	if n == 0 {
		return "c0"
	}
	k := r.intn(n)
	if k < len(p.Clients) {
		return fmt.Sprintf("c%d", k)
	}
	return fmt.Sprintf("s%d", k-len(p.Clients))
}

// ctx: the context returned by Client.Poll.
func profCtx(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(3, 8))
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.preload(r.rangeInt(2, 8))
	g.clients(r.rangeInt(1, 4), 16, "cpoll", 30, "ccommit", 40, "insert", 10, "upsert", 5, "fclaim", 6, "revoke", 5, "commit", 4, "sleep", 12, "get", 3, "delete", 2)
	if r.pct(30) {
		for i := 0; i < 2; i++ {
			g.p.Faults = append(g.p.Faults, g.netFault())
		}
	}
	g.p.End = EndCfg{Metrics: r.pct(30)}
}

// net: lossy connections, client time-outs, truncated answers.
func profNet(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(2, 6))
	g.p.Nodes = []NodeCfg{g.memNode()}
	g.preload(r.intn(6))
	g.clients(r.rangeInt(2, 5), 14, allKinds...)
	g.clients(1, 8, "cpoll", 40, "ccommit", 50, "insert", 10)
	for i := 0; i < r.rangeInt(1, 8); i++ {
		g.p.Faults = append(g.p.Faults, g.netFault())
	}
	g.cancels(pick(r, 0, 5, 20))
	g.slowBodies(15)
	g.p.End = EndCfg{Paging: r.pct(20), Metrics: r.pct(50), Drain: r.pct(20)}
}

// chore: recovery of timed-out claims.
func profChore(g *gen) {
	r := g.r
	g.far = r.pct(50)
	g.names(r.rangeInt(1, 2), r.rangeInt(3, 8))
	n := g.memNode()
	n.ChoreMS = pick(r, 20, 100, 500, 2000, 0)
	n.DelayMS = pick(r, 0, 0, 30, 1000, 8000, 30000)
	n.Random = r.pct(50)
	if r.pct(20) {
		n.DefaultChore = true
	}
	if r.pct(25) {
		n.SnapMS = pick(r, 1, 200)
	}
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.rangeInt(1, 8))
	g.clients(r.rangeInt(1, 4), 14, "poll", 25, "claim", 10, "fclaim", 6, "commit", 12, "insert", 6, "upsert", 10, "sleep", 30, "getp", 4, "get", 4, "revoke", 2)
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			o := &g.p.Clients[i][j]
			if o.K == "poll" || o.K == "claim" || o.K == "fclaim" {
				if o.Deadline == "" {
					o.Timeout = pick(r, "5ms", "50ms", "200ms", "700ms", "2s", "-1s", "0s")
				}
			}
		}
	}
	if r.pct(40) {
		g.stalls(r.rangeInt(1, 2))
	}
	g.clockJumps(15)
	if r.pct(15) {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "term"), On: "step", N: r.rangeInt(200, 3000), A: 10})
	}
	g.p.End = EndCfg{Drain: r.pct(40), WorkSec: pick(r, 0, 2, 6)}
}

// retention: completed tasks expire on time.
func profRetention(g *gen) {
	r := g.r
	g.names(r.rangeInt(1, 2), r.rangeInt(3, 8))
	n := g.memNode()
	n.ChoreMS = pick(r, 50, 200, 1000)
	n.RetMS = pick(r, 200, 500, 1500, 4000)
	if r.pct(20) {
		n.SnapMS = 100
	}
	g.p.Nodes = []NodeCfg{n}
	g.preload(r.rangeInt(2, 8))
	g.clients(r.rangeInt(1, 4), 16, "poll", 25, "claim", 8, "commit", 30, "insert", 6, "upsert", 10, "sleep", 25, "get", 6, "listt", 3)
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			o := &g.p.Clients[i][j]
			if o.K == "commit" && r.pct(50) {
				o.State = ip(2)
			}
			if o.K == "upsert" && r.pct(50) {
				s := &o.Tasks[0]
				s.State = pick(r, 2, 2, 3, 0)
				s.Consumed = pick(r, "", "now-100ms", "now-450ms", "now-1490ms", "now-5s", "now+1s", "1969-01-01T00:00:00Z", "1900-01-01T00:00:00Z")
			}
		}
	}
	if r.pct(20) {
		g.stalls(1)
	}
	g.clockJumps(15)
	if r.pct(15) {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "term"), On: "step", N: r.rangeInt(200, 3000), A: 10})
	}
	g.p.End = EndCfg{WorkSec: pick(r, 0, 2), WaitSec: pick(r, 0, 5)}
}

// startup: signals, requests and jobs around the start of the process.
func profStartup(g *gen) {
	r := g.r
	g.names(1, 4)
	n := g.memNode()
	n.SkewMS = 0
	n.ChoreMS = pick(r, 50, 300, 0)
	n.DelayMS = pick(r, 0, 100, 1500)
	if r.pct(50) {
		n.SnapMS = pick(r, 1, 300)
	}
	g.p.Nodes = []NodeCfg{n}
	g.clients(r.rangeInt(1, 3), 10, "insert", 20, "poll", 20, "commit", 10, "live", 15, "ready", 15, "healthz", 5, "sleep", 20)
	for i := 0; i < r.rangeInt(1, 4); i++ {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "term", "int", "kill"), On: pick(r, "step", "time"), N: r.rangeInt(1, 300), A: pick(r, 0, 5)})
	}
	g.p.End.WorkSec = pick(r, 0, 2)
}

// ready: probes.
func profReady(g *gen) {
	profMongoFail(g)
	for i := range g.p.Clients {
		for k := 0; k < 4; k++ {
			g.insertOp(i, g.op(pick(g.r, "live", "ready", "ready", "healthz")))
		}
	}
	r := g.r
	if r.pct(35) {
		// A load balancer watches readiness while a replica set has no primary for long.
		if r.pct(60) {
			m := g.p.Mongo
			m.Mode, m.Shard, m.Multi = "replset", "", true
			g.p.Faults = append(g.p.Faults, Fault{K: "mongo-failover", On: "mongo", N: r.rangeInt(1, 100), A: pick(r, 30000, 60000)})
		}
		for n := range g.p.Nodes {
			var ops []Op
			for k := 0; k < 10; k++ {
				ops = append(ops, Op{K: "ready", Node: n}, Op{K: "sleep", Node: n, SleepMS: pick(r, 500, 3000, 8000)})
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
	}
}

// mongoNodes configures a deployment and n instances in front of it.
func (g *gen) mongoNodes(n int) {
	r := g.r
	m := &MongoCfg{Mode: pick(r, "standalone", "replset", "replset", "sharded", "sharded"), Multi: r.pct(60), ServUS: pick(r, 0, 200, 3000, 20000), TTLSec: 60}
	if m.Mode == "sharded" {
		m.Shard = pick(r, "", "_id", "_id", "topic", "topic")
		m.V7 = r.pct(30)
	}
	g.p.Mongo = m
	for i := 0; i < n; i++ {
		c := g.memNode()
		c.Engine = "mongodb"
		c.NoAtomic = r.pct(30)
		if m.Shard == "" {
			c.NoAuto = r.pct(20)
		}
		if i > 0 {
			c.StartMS = pick(r, 0, 0, 1, 5, 50, 400)
			c.NoIndex = r.pct(20) && c.StartMS == 400
		}
		g.p.Nodes = append(g.p.Nodes, c)
	}
}

// spread sends the operations to all instances, as a load balancer does.
func (g *gen) spread() {
	n := len(g.p.Nodes)
	for i := range g.p.Clients {
		own := g.r.pct(30)
		for j := range g.p.Clients[i] {
			o := &g.p.Clients[i][j]
			if o.Node = i % n; !own {
				o.Node = g.r.intn(n)
			}
		}
	}
}

// mongo: every operation against a MongoDB deployment behind several instances.
func profMongo(g *gen) {
	r := g.r
	g.far = r.pct(30)
	g.pay = 1 + r.intn(2)
	g.names(r.rangeInt(1, 3), r.rangeInt(1, 6))
	g.mongoNodes(pick(r, 1, 1, 2, 3))
	g.preload(r.intn(6))
	switch r.intn(4) {
	case 0:
		g.clients(r.rangeInt(2, 6), 12, "poll", 40, "commit", 25, "upsert", 8, "fclaim", 10, "claim", 8, "revoke", 6, "insert", 8)
	case 1:
		g.clients(r.rangeInt(1, 3), 8, "inserts", 25, "upserts", 15, "deltopic", 8, "deltasks", 8, "revokes", 12, "deltopics", 6, "sleep", 5)
		g.clients(r.rangeInt(1, 3), 10, "listt", 20, "listp", 12, "topics", 15, "topic", 12, "poll", 20, "get", 10, "commit", 10, "insert", 5)
	default:
		g.clients(r.rangeInt(2, 6), 14, allKinds...)
	}
	g.spread()
	if r.pct(20) {
		g.stalls(r.rangeInt(1, 3))
	}
	if r.pct(10) {
		g.cancels(10)
	}
	g.p.End = EndCfg{Drain: r.pct(40), Paging: r.pct(40), Metrics: r.pct(50)}
}

// mongorace: many consumers fight over one or two tasks where every step is a
// round trip of its own.
func profMongoRace(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(1, 2))
	g.mongoNodes(pick(r, 1, 1, 2))
	m := g.p.Mongo
	m.Mode, m.Shard = "sharded", pick(r, "_id", "topic", "_id")
	if r.pct(25) {
		m.Mode, m.Shard = pick(r, "standalone", "replset"), ""
	}
	m.ServUS = pick(r, 0, 500, 3000, 20000, 20000)
	for i := range g.p.Nodes {
		n := &g.p.Nodes[i]
		n.NoAtomic, n.NoAuto, n.SkewMS = r.pct(60), false, 0
		n.ChoreMS, n.DelayMS, n.Random = pick(r, 5, 20, 100, 1000), 0, false
	}
	if r.pct(30) {
		// A stampede: everybody wants the next one of plenty of tasks.
		g.names(1, 12)
		m.ServUS = pick(r, 500, 3000, 20000)
		for i := range g.p.Nodes {
			g.p.Nodes[i].NoAtomic = g.p.Nodes[i].NoAtomic || m.Shard != "_id"
		}
		for i := 0; i < 12; i++ {
			o := g.op("insert")
			o.ID, o.Node = fmt.Sprintf("s%d", i), 0
			for j := range o.Tasks {
				o.Tasks[j] = TaskSpec{ID: o.ID, Topic: g.topics[0]}
			}
			o.Topic = g.topics[0]
			g.p.Preload = append(g.p.Preload, o)
		}
		g.clients(r.rangeInt(5, 9), 6, "poll", 90, "commit", 10)
		g.spread()
		g.p.End = EndCfg{Drain: r.pct(40)}
		return
	}
	g.preload(r.rangeInt(1, 3))
	g.clients(r.rangeInt(3, 7), 12, "poll", 20, "claim", 20, "fclaim", 15, "commit", 35, "revoke", 8, "upsert", 8, "upserts", 2, "insert", 5, "delete", 3)
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			if o := &g.p.Clients[i][j]; (o.K == "poll" || o.K == "claim" || o.K == "fclaim") && r.pct(60) {
				o.Timeout = pick(r, "0s", "1ms", "10ms", "30ms")
			}
		}
	}
	g.spread()
	if r.pct(20) {
		g.stalls(r.rangeInt(1, 3))
	}
	g.p.End = EndCfg{Drain: r.pct(40), Metrics: r.pct(30)}
}

// mongograce: instances end while requests wait for the database.
func profMongoGrace(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 3), r.rangeInt(1, 8))
	g.mongoNodes(pick(r, 1, 1, 2))
	g.p.Mongo.ServUS = pick(r, 200, 3000, 20000, 20000, 300000)
	for i := range g.p.Nodes {
		g.p.Nodes[i].SkewMS = 0
	}
	g.preload(r.intn(6))
	g.clients(r.rangeInt(2, 6), 12, "insert", 15, "upsert", 10, "inserts", 8, "upserts", 6, "delete", 4, "poll", 20, "commit", 16, "claim", 5, "get", 4, "listt", 3, "topics", 3, "sleep", 5)
	g.spread()
	for i := r.rangeInt(1, 3); i > 0; i-- {
		f := Fault{K: pick(r, "term", "int"), A: pick(r, 0, 20, 500), Node: r.intn(len(g.p.Nodes))}
		switch r.intn(5) {
		case 0:
			f.On, f.N = "step", r.rangeInt(50, 3000)
		case 1:
			f.On, f.N = "serve", r.rangeInt(1, 40)
		case 2:
			f.On, f.N = "commit", r.rangeInt(1, 30)
		case 3:
			f.On, f.N = "mongo", r.rangeInt(5, 120)
		default:
			f.On, f.N = "time", r.rangeInt(1, 2000)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	if r.pct(20) {
		g.stalls(r.rangeInt(1, 2))
	}
	if r.pct(15) {
		g.cancels(10)
	}
	g.slowBodies(25)
	g.p.End = EndCfg{Drain: r.pct(30)}
}

// mongoidx: instances start together and again on one collection.
func profMongoIdx(g *gen) {
	r := g.r
	g.names(1, 4)
	g.mongoNodes(r.rangeInt(1, 4))
	for i := range g.p.Nodes {
		n := &g.p.Nodes[i]
		n.RetMS = pick(r, 0, 0, 1000, 60000, 3600000)
		n.StartMS = pick(r, 0, 0, 0, 1, 2, 20, 300)
		n.NoIndex = i > 0 && r.pct(15)
		n.SkewMS = 0
	}
	g.clients(r.rangeInt(1, 3), 8, "insert", 20, "poll", 20, "commit", 15, "listt", 5, "get", 5, "sleep", 30)
	g.spread()
	for i := 0; i < r.intn(5); i++ {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "term", "kill"), On: pick(r, "step", "mongo", "time"), N: r.rangeInt(1, 400), Node: r.intn(len(g.p.Nodes)), A: pick(r, 0, 1, 5, 100)})
	}
	if r.pct(25) {
		for i := 0; i < r.rangeInt(1, 3); i++ {
			f := g.mongoFault()
			f.N = r.rangeInt(1, 8)
			f.On = "mongo"
			g.p.Faults = append(g.p.Faults, f)
		}
	}
	g.p.End = EndCfg{WorkSec: pick(r, 0, 2)}
}

func (g *gen) mongoFault() Fault {
	r := g.r
	f := Fault{On: "mongo", N: r.rangeInt(1, 160)}
	switch x := r.intn(100); {
	case x < 10:
		f.K = "mongo-drop"
	case x < 20:
		f.K, f.A = "mongo-werr", r.intn(255)
		if r.pct(80) {
			f.On, f.N = "mongobulk", r.rangeInt(1, 6)
		}
	case x < 45:
		f.K = "mongo-dropafter"
	case x < 65:
		f.K, f.S = "mongo-err", pick(r, "shutdown", "notprimary", "stepdown", "interrupted", "maxtime", "unreachable", "notfound", "memory", "unauth")
		f.A, f.B = pick(r, 0, 0, 1, 2), map[bool]int{true: 1}[r.pct(25)]
	case x < 75:
		f.K, f.A, f.B = "mongo-delay", pick(r, 0, 5, 300, 4000), pick(r, 0, 5, 300, 4000)
	case x < 88:
		f.K, f.A, f.S = "mongo-down", pick(r, 1, 50, 2000, 20000, 100000), pick(r, "", "", "part")
	default:
		f.K, f.A = "mongo-failover", pick(r, 5, 500, 5000, 12000)
	}
	return f
}

// mongofail: the database fails in every way a deployment does.
func profMongoFail(g *gen) {
	r := g.r
	g.pay = 1
	g.names(r.rangeInt(1, 2), r.rangeInt(2, 6))
	g.mongoNodes(pick(r, 1, 1, 2))
	g.preload(r.intn(5))
	if r.pct(20) {
		// Batches over few names, some of whose statements fail.
		g.clients(r.rangeInt(1, 3), 10, "inserts", 40, "upserts", 20, "delete", 10, "get", 10, "listt", 8, "poll", 10)
		for i := 0; i < r.rangeInt(1, 4); i++ {
			g.p.Faults = append(g.p.Faults, Fault{K: "mongo-werr", On: "mongobulk", N: r.rangeInt(1, 12), A: r.intn(255)})
		}
	} else {
		g.clients(r.rangeInt(2, 4), 14, allKinds...)
	}
	g.spread()
	for i := 0; i < r.rangeInt(1, 6); i++ {
		g.p.Faults = append(g.p.Faults, g.mongoFault())
	}
	if r.pct(20) {
		g.p.Faults = append(g.p.Faults, g.netFault())
	}
	if r.pct(20) {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "term"), On: "step", N: r.rangeInt(50, 2000), Node: r.intn(len(g.p.Nodes)), A: pick(r, 0, 100)})
	}
	if r.pct(20) {
		g.cancels(15)
	}
	g.p.End = EndCfg{Drain: r.pct(30), WorkSec: pick(r, 0, 2, 60)}
}

// mongosub: subscriptions on several instances of a MongoDB deployment.
func profMongoSub(g *gen) {
	g.mongoNodes(pick(g.r, 1, 2))
	nodes := g.p.Nodes
	profSub(g)
	g.p.Nodes = nodes
	for i := range g.p.Subs {
		s := &g.p.Subs[i]
		s.Node = g.r.intn(len(nodes))
		// Requests take many more steps than with MemDB.
		if s.PollMS == 50 {
			s.PollMS = 200
		}
		if s.DrainMS == 50 {
			s.DrainMS = 200
		}
	}
	if g.p.End.WorkSec > 12 {
		g.p.End.WorkSec = 12
	}
	g.spread()
	if g.r.pct(30) {
		for i := 0; i < g.r.rangeInt(1, 3); i++ {
			g.p.Faults = append(g.p.Faults, g.mongoFault())
		}
	}
}

// mongochore: recovery and expiry by several instances.
func profMongoChore(g *gen) {
	r := g.r
	g.mongoNodes(pick(r, 1, 2, 2))
	nodes := g.p.Nodes
	profChore(g)
	g.p.Nodes = nodes
	ret := pick(r, 0, 0, 1000, 5000, 20000)
	for i := range nodes {
		nodes[i].ChoreMS = pick(r, 20, 100, 500, 2000)
		nodes[i].RetMS = ret
		if i > 0 && r.pct(20) {
			nodes[i].ChoreMS = 0
		}
	}
	g.p.Mongo.TTLSec = pick(r, 1, 5, 60)
	for i := range g.p.Clients {
		for j := range g.p.Clients[i] {
			if o := &g.p.Clients[i][j]; o.K == "upsert" && r.pct(40) {
				s := &o.Tasks[0]
				s.State = pick(r, 2, 2, 3, 0, 1)
				s.Consumed = pick(r, "", "now-100ms", "now-2s", "now-50s", "now-100h", "now+1s", "1969-01-01T00:00:00Z")
			}
		}
	}
	g.spread()
	if r.pct(30) {
		for i := 0; i < r.rangeInt(1, 3); i++ {
			g.p.Faults = append(g.p.Faults, g.mongoFault())
		}
	}
	g.p.End.WaitSec = pick(r, 0, 10, 90)
}

// bulkOp stores many tasks at once.
func (g *gen) bulkOp(k string, n int, mode int) Op {
	r := g.r
	o := Op{K: k, Topic: g.topic()}
	t := g.topic()
	pre := pick(r, "b", "b", "c")
	from := r.intn(50)
	for i := 0; i < n; i++ {
		s := TaskSpec{ID: fmt.Sprintf("%s%d", pre, from+i), Topic: t, Sched: "now-1000ms"}
		m := mode
		if m == 9 {
			m = r.intn(6)
		}
		switch m {
		case 0: // pending
			if r.pct(30) {
				s.Sched = fmt.Sprintf("now-%dms", r.intn(5000))
			}
		case 1: // timed out
			s.State, s.Nonce, s.Consumer, s.Consumed, s.Deadline = 1, fmt.Sprintf("n%d", i), "w1", "now-2h", fmt.Sprintf("now-%dms", 1+r.intn(5000))
		case 2: // held
			s.State, s.Nonce, s.Consumer, s.Consumed, s.Deadline = 1, fmt.Sprintf("n%d", i), "w2", "now-1s", pick(r, "now+1h", "now+1h", "now+300ms")
		case 3: // expired
			s.State, s.Consumed = 2, fmt.Sprintf("now-%dh", 100+r.intn(50))
		case 4: // completed
			s.State, s.Consumed = 2, pick(r, "", "now-1s", "now-10s")
		case 5:
			s.State, s.Consumed = 3, "now-100h"
		}
		if mode == 9 || r.pct(2) {
			s.Topic = g.topic()
		}
		o.Tasks = append(o.Tasks, s)
	}
	return o
}

// bulk: many tasks and topics at once.
func profBulk(g *gen) {
	n := g.memNode()
	n.SkewMS = 0
	g.p.Nodes = []NodeCfg{n}
	g.bulk()
}

func (g *gen) bulk() {
	r := g.r
	mem := g.p.Nodes[0].Engine == "memdb"
	g.names(r.rangeInt(1, 3), r.rangeInt(2, 5))
	many := r.pct(25)
	if many {
		k := pick(r, 60, 130, 260)
		for i := 0; i < k; i++ {
			g.topics = append(g.topics, fmt.Sprintf("q%d", i))
		}
	}
	g.p.Sched.PointPct = pick(r, 1, 3, 10, 30)
	size := func() int { return pick(r, 60, 101, 130, 130, 257, 257, 300, 520, 1030) }
	mode := func() int {
		if many {
			return pick(r, 9, 9, 0)
		}
		return pick(r, 0, 1, 1, 2, 3, 3, 4, 9, 9)
	}
	for i := range g.p.Nodes {
		n := &g.p.Nodes[i]
		n.ChoreMS = pick(r, 50, 300, 2000)
		n.MaxLimit = pick(r, 0, 0, 150, 2000)
		if r.pct(40) {
			n.RetMS = pick(r, 1000, 60000)
		}
		if mem && r.pct(50) {
			n.SnapMS = pick(r, 1, 300, 20000)
			if n.ChoreMS == 50 {
				n.SnapMS = 20000 // large snapshots take many steps
			}
		}
		if i > 0 {
			n.RetMS = g.p.Nodes[0].RetMS
		}
	}
	for i := 0; i < r.rangeInt(1, 2); i++ {
		g.p.Preload = append(g.p.Preload, g.bulkOp(pick(r, "inserts", "upserts"), size(), mode()))
	}
	c := r.rangeInt(1, 3)
	for i := 0; i < c; i++ {
		ops := g.opsOf(r.rangeInt(2, 6), "revokes", 15, "deltasks", 12, "deltopic", 10, "deltopics", 8, "listt", 15, "listp", 12, "topics", 12, "topic", 10, "poll", 10, "sleep", 15, "commit", 3, "get", 3, "insert", 3)
		for j := range ops {
			if o := &ops[j]; o.K == "listt" || o.K == "listp" || o.K == "topics" {
				if !o.NoLimit {
					o.Limit, o.Offset = pick(r, 10, 99, 100, 100), pick(r, 0, 0, 50, 99, 100, 101, 250)
					if m := g.p.Nodes[0].MaxLimit; m > 100 && len(g.p.Nodes) == 1 {
						o.Limit = pick(r, 101, 102, 149, 150, m)
					}
				}
			}
		}
		g.p.Clients = append(g.p.Clients, ops)
		if r.pct(60) {
			g.insertOp(i, g.bulkOp(pick(r, "inserts", "upserts"), size(), mode()))
		}
	}
	if mem && r.pct(25) {
		g.p.Faults = append(g.p.Faults, Fault{K: pick(r, "kill", "power", "term"), On: pick(r, "step", "commit", "time"), N: r.rangeInt(3, 800), A: 10, B: r.intn(101), C: r.intn(101)})
	}
	if r.pct(20) {
		g.stalls(1)
	}
	g.p.End = EndCfg{Paging: r.pct(50), Metrics: r.pct(40), WaitSec: pick(r, 0, 3)}
	if mem && g.p.Nodes[0].SnapMS > 0 {
		g.p.End.Restart = pick(r, "", "graceful", "kill")
	}
}

// mongobulk: the same on MongoDB.
func profMongoBulk(g *gen) {
	g.mongoNodes(pick(g.r, 1, 2))
	for i := range g.p.Nodes {
		g.p.Nodes[i].SkewMS = 0
	}
	g.bulk()
	g.p.Mongo.TTLSec = pick(g.r, 2, 60)
	g.p.Mongo.ServUS = pick(g.r, 0, 200)
	g.spread()
}
