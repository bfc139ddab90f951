package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"time"
)

var realParts = []string{
	"github.com/hyperonym/ratus: client library, context, transport, models (as in /repo's working tree, yield points inserted)",
	"cmd/ratus: the whole program, started through its main function with command line flags",
	"internal/router, controller, middleware, engine/memdb, engine/mongodb, config, metrics, nonce",
	"net/http server and client, encoding/json, gin, go-arg, prometheus client, sync, context, timers of the Go runtime (on simulated time)",
	"hashicorp/go-memdb (one observation call added at commit)",
}

var stubParts = []string{
	"clock and timers: testing/synctest bubble time plus a per-process offset",
	"goroutine scheduling: one runnable goroutine at a time, chosen by the seeded scheduler at inserted yield points",
	"network below net.Conn: simulated byte streams (delay, reset, half-close, silence, partition)",
	"file system below *os.File for the snapshot directory: simulated disk with durable and volatile state",
	"process start, exit and signals: simulated incarnations",
	"randomness: crypto/rand, math/rand, map order and select order derived from the seed",
}

func usesMongo(prop string) bool {
	for k := range mixOf[prop] {
		if len(k) >= 5 && k[:5] == "mongo" || k == "ready" {
			return true
		}
	}
	return false
}

func writeEvidence(path, prop, tier string, seed uint64, st *stats, searched, wall time.Duration, viols []*Replay) {
	if path == "" {
		return
	}
	stub := append([]string(nil), stubParts...)
	real := append([]string(nil), realParts...)
	if usesMongo(prop) {
		stub = append(stub, "MongoDB server: an executable model speaking the wire protocol (OP_MSG) to the real driver; indexes, duplicate keys, TTL, hints, retryable writes, sharding errors and outages are modelled")
		real = append(real, "go.mongodb.org/mongo-driver")
	}
	var zero []string
	for _, k := range expectProbes[prop] {
		if st.probes[k] == 0 && st.injected[k] == 0 {
			zero = append(zero, k)
		}
	}
	sort.Strings(zero)
	cov := map[string]any{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.nontrivial),
		"rule": "One case is one simulated execution: a plan (instances, clients, operations, faults) generated from its seed, scheduled by the seeded scheduler. " +
			"Non-trivial: at least one judgement of this property was made and the scheduler had a real choice or a fault was injected. " +
			"Distinct: different hash of the sequence of scheduling decisions (goroutine, program point, choice) and delivered events.",
		"samples":                        st.samples,
		"judgements_of_this_property":    st.judged,
		"runs_per_hour":                  int(float64(st.runs) / searched.Hours()),
		"seeds_per_hour":                 int(float64(st.runs) / searched.Hours()),
		"simulated_seconds":              st.simMS / 1000,
		"scheduler_steps":                st.steps,
		"client_operations":              st.ops,
		"store_versions_judged":          st.vers,
		"faults_injected":                st.injected,
		"situations_reached":             st.probes,
		"situations_not_reached":         zero,
		"distinct_schedules":             len(st.sched),
		"distinct_store_histories":       len(st.hist),
		"runs_by_scenario":               st.scen,
		"runs_out_of_step_budget":        st.budget,
		"runs_repeated_for_determinism":  st.rechecked,
		"repeated_runs_that_differed":    st.differ,
		"runs_that_ended_the_worker":     st.crashes,
		"suspicions_that_did_not_replay": st.unconf,
		"known_findings_seen":            st.suppressed,
		"components_running_real_code":   real,
		"components_running_a_stub":      stub,
		"violations_of_other_properties": st.others,
		"search_seconds":                 searched.Seconds(),
	}
	if len(st.samples) == 0 {
		cov["samples"] = []any{map[string]any{"note": "no non-trivial run"}}
	}
	n := len(viols)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": n,
		"assumptions": []string{
			"The program is compiled with Go 1.27 (whose synctest runtime provides simulated time) instead of the project's Go 1.23.",
			"Between two yield points (statements, disk operations, network deliveries) a goroutine runs without interruption; data races inside one statement are not explored.",
			"A store change is observed when go-memdb publishes its new root, respectively when the MongoDB model applies a command.",
		}}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, b, 0o644))
}

// expectProbes lists situations a property's check is expected to reach.
var expectProbes = map[string][]string{}
