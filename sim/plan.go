package main

import (
	"encoding/json"
	"fmt"
	"time"
)

// Plan is everything that decides a run (together with the code under test).
type Plan struct {
	Prop     string
	Scenario string
	Seed     uint64
	Sched    SchedCfg
	Net      NetCfg
	Nodes    []NodeCfg
	Mongo    *MongoCfg `json:",omitempty"`
	Preload  []Op      `json:",omitempty"`
	Clients  [][]Op
	Subs     []SubCfg `json:",omitempty"`
	Faults   []Fault  `json:",omitempty"`
	End      EndCfg
	MaxSteps int
	MaxSec   int
	Choices  []int `json:",omitempty"`
	Replay   bool  `json:",omitempty"`
}

type SchedCfg struct {
	Policy    string // uniform, sticky, pct
	Switch    int    // per mille
	PointPct  int    // share of statement points enabled
	PointSeed uint64
	PauseBP   int `json:",omitempty"` // points in 10000 at which a request handler or background job pauses
	PauseUS   int `json:",omitempty"` // for up to this long
}

type NetCfg struct {
	BaseUS, JitterUS, JitterPct int
	Seed                        uint64
}

type NodeCfg struct {
	Engine       string
	Port         int
	ChoreMS      int
	DelayMS      int
	Random       bool
	SnapMS       int // snapshot interval; 0: no snapshot path
	RetMS        int
	MaxLimit     int
	MaxOffset    int
	SkewMS       int
	StartMS      int // delay before the first start
	NoIndex      bool
	NoAuto       bool // disable auto fallback
	NoAtomic     bool // disable atomic poll
	DefaultChore bool // leave chore flags at their defaults
}

type MongoCfg struct {
	V7     bool   `json:",omitempty"` // single writes need no shard key, as from MongoDB 7.0 on
	Mode   string // standalone, replset, sharded
	Shard  string // "", _id, topic
	Multi  bool   // multi-document updates interleave with other commands
	TTLSec int    // TTL monitor period
	ServUS int    // service time spread of commands
}

type EndCfg struct {
	Drain   bool // poll every topic dry and check delivery
	Paging  bool
	Metrics bool
	Restart string // "", graceful, kill, power
	WorkSec int    // minimum duration of the working phase
	WaitSec int    // extra quiet time before the final checks
	Expiry  bool
}

// Fault is one entry of the fault plan; it fires when counter On reaches N
// (or at time N ms if On is "time").
type Fault struct {
	K    string
	On   string
	N    int
	Node int    `json:",omitempty"`
	A    int    `json:",omitempty"`
	B    int    `json:",omitempty"`
	C    int    `json:",omitempty"`
	S    string `json:",omitempty"`
}

type SubCfg struct {
	Node            int
	Topic           string
	Consumer        string
	Timeout         string
	Concurrency     int
	DelayMS         int // concurrency delay
	PollMS          int
	DrainMS         int
	ErrMS           int
	CancelMS        int          // cancel at this time
	Handler         []HandlerCfg // behaviour by invocation number (cyclic)
	ClientTimeoutMS int
}

type HandlerCfg struct {
	WorkMS  int             `json:",omitempty"`
	Do      []string        `json:",omitempty"` // settings, as in Op.Do
	Payload json.RawMessage `json:",omitempty"`
	Commits int             `json:",omitempty"` // explicit Commit calls
}

func (w *World) count(name string) {
	w.counts[name]++
	n := w.counts[name]
	if idx, ok := w.fidx[name]; ok {
		for _, i := range idx {
			f := &w.plan.Faults[i]
			if !w.faultsDone[i] && f.N == n && !inlineFault(f.K) {
				w.faultsDone[i] = true
				w.apply(f)
			}
		}
	}
}

func inlineFault(k string) bool {
	switch k {
	case "net-delay", "net-reset", "net-eof", "net-silence", "gateway", "disk-err", "disk-short", "mongo-err", "mongo-werr", "mongo-drop", "mongo-dropafter", "mongo-delay":
		return true
	}
	return false
}

// fire counts an occurrence of name and returns the inline faults due.
func (w *World) fire(name string) []*Fault {
	w.counts[name]++
	n := w.counts[name]
	idx, ok := w.fidx[name]
	if !ok {
		return nil
	}
	var out []*Fault
	for _, i := range idx {
		f := &w.plan.Faults[i]
		if w.faultsDone[i] || f.N != n {
			continue
		}
		if inlineFault(f.K) {
			if !w.healed {
				w.faultsDone[i] = true
				out = append(out, f)
			}
		} else {
			w.faultsDone[i] = true
			w.apply(f)
		}
	}
	return out
}

func (w *World) fireN(name string, node int) []*Fault {
	return w.fire(fmt.Sprintf("%s#%d", name, node))
}

func (w *World) indexFaults() {
	w.fidx = map[string][]int{}
	w.faultsDone = make([]bool, len(w.plan.Faults))
	for i, f := range w.plan.Faults {
		w.fidx[f.On] = append(w.fidx[f.On], i)
	}
}

func (w *World) timeFaults() {
	for _, i := range w.fidx["time"] {
		f := &w.plan.Faults[i]
		if !w.faultsDone[i] && w.now().Sub(w.t0) >= time.Duration(f.N)*time.Millisecond {
			w.faultsDone[i] = true
			w.apply(f)
		}
	}
}

func (w *World) nextFaultTime() (t time.Time) {
	for _, i := range w.fidx["time"] {
		if w.faultsDone[i] {
			continue
		}
		x := w.t0.Add(time.Duration(w.plan.Faults[i].N) * time.Millisecond)
		if t.IsZero() || x.Before(t) {
			t = x
		}
	}
	return
}

// apply performs a controller fault.
func (w *World) apply(f *Fault) {
	if w.healed {
		return
	}
	w.logf("FAULT %s on %s=%d node=%d A=%d B=%d S=%s", f.K, f.On, f.N, f.Node, f.A, f.B, f.S)
	var nd *Node
	if f.Node < len(w.nodes) {
		nd = w.nodes[f.Node]
	}
	switch f.K {
	case "kill", "power":
		if nd == nil || !nd.alive() {
			return
		}
		w.injected[f.K]++
		nd.kill(f.K == "power", f.B, f.C)
		if f.A >= 0 {
			w.after(time.Duration(f.A)*time.Millisecond, 0, "restart", func() {
				if !nd.alive() && !w.stop {
					nd.boot()
				}
			})
		}
	case "term", "int":
		if nd == nil || !nd.alive() {
			return
		}
		sig := func() {
			if !nd.alive() || w.healed {
				return
			}
			w.injected["sig"+f.K]++
			if f.A >= 0 {
				nd.restartAfterExit = time.Duration(f.A)*time.Millisecond + 1
			}
			nd.signal(f.K)
		}
		if f.C > 0 {
			w.after(time.Duration(f.C)*time.Millisecond, 0, f.K, sig)
			return
		}
		sig()
	case "stall": // the whole process stops for A ms
		if nd == nil || !nd.alive() {
			return
		}
		w.injected["stall"]++
		nd.everStalled = true
		nd.stallTotal += time.Duration(f.A) * time.Millisecond
		nd.inc.stall = w.now().Add(time.Duration(f.A) * time.Millisecond)
	case "stallone": // the goroutine that ran last stops for A ms
		if len(w.parked) > 0 {
			p := w.parked[f.B%len(w.parked)]
			w.injected["stall-goroutine"]++
			p.due = w.now().Add(time.Duration(f.A) * time.Millisecond)
			if p.inc.node >= 0 && p.inc.node < len(w.nodes) {
				w.nodes[p.inc.node].everStalled = true
				w.nodes[p.inc.node].stallTotal += time.Duration(f.A) * time.Millisecond
			}
		}
	case "clock": // wall clock jump
		if nd == nil {
			return
		}
		w.injected["clock-jump"]++
		nd.jumpedAt = w.now()
		nd.setSkew(nd.skew + time.Duration(f.A)*time.Millisecond)
	case "partition":
		w.net.partition(f.S, nd.host, time.Duration(f.A)*time.Millisecond)
	case "disk-full":
		w.injected["disk-full"]++
		nd.fs.full = true
		nd.fs.eio["close"] = f.B == 1
		nd.diskBad(time.Duration(f.A) * time.Millisecond)
	case "disk-eio":
		w.injected["disk-eio-"+f.S]++
		nd.fs.eio[f.S] = true
		nd.diskBad(time.Duration(f.A) * time.Millisecond)
	case "mongo-down":
		w.mongo.outage(time.Duration(f.A)*time.Millisecond, f.S)
	case "mongo-failover":
		w.mongo.failover(time.Duration(f.A) * time.Millisecond)
	default:
		must(fmt.Errorf("unknown fault %q", f.K))
	}
}
