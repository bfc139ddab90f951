package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"verifhook"

	"github.com/gin-gonic/gin"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"
)

func loadPoints(f string) {
	b, err := os.ReadFile(f)
	must(err)
	var ps []struct {
		ID             int
		Pkg, Func, Pos string
	}
	must(json.Unmarshal(b, &ps))
	pointNames = make([]string, len(ps)+1)
	for _, p := range ps {
		if p.ID >= len(pointNames) {
			pointNames = append(pointNames, make([]string, p.ID+1-len(pointNames))...)
		}
		pointNames[p.ID] = p.Func + " " + p.Pos
		if p.Pkg == "math/rand" {
			verifhook.RandPoint = uint32(p.ID)
		}
	}
}

func setup(points string) {
	gin.SetMode(gin.ReleaseMode)
	runtime.GOMAXPROCS(1)
	loadPoints(points)
	installHooks()
	// Figures of the real process would make answers depend on the past.
	prometheus.Unregister(collectors.NewGoCollector())
	prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
}

func main() {
	if len(os.Args) < 2 {
		must(fmt.Errorf("usage: sim one|worker|check|replay …"))
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	points := fs.String("points", "", "points.json")
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	scen := fs.String("scenario", "", "")
	n := fs.Int("n", 1, "")
	v := fs.Bool("v", false, "")
	args := os.Args[2:]
	switch os.Args[1] {
	case "one":
		fs.Parse(args)
		setup(*points)
		if f := os.Getenv("CPUPROF"); f != "" {
			o, err := os.Create(f)
			must(err)
			pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
		for i := 0; i < *n; i++ {
			p := genPlan(*prop, *seed+uint64(i), *scen)
			r := runPlan(p, runOpts{verbose: *v})
			printResult(r, *v)
			afterRun()
		}
	case "worker":
		fs.Parse(args)
		setup(*points)
		worker()
	case "check":
		checkMain(args)
	case "replay":
		replayMain(args)
	default:
		must(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

func printResult(r *Result, v bool) {
	for _, l := range r.Log {
		fmt.Println(l)
	}
	fmt.Printf("seed=%d %s hash=%016x steps=%d contest=%d ops=%d vers=%d sim=%dms wall=%dms inj=%v stuck=%q viol=%d\n", r.Seed, r.Scenario, r.Hash, r.Steps, r.Contest, r.Ops, r.Vers, r.SimMS, r.WallUS/1000, r.Injected, r.Stuck, len(r.Viol))
	if v {
		fmt.Println("probes", r.Probes, "evals", r.Evals)
	}
	for _, x := range r.Viol {
		fmt.Printf("   %v %s: %s (at %s)\n", x.Props, x.Rule, x.Msg, x.At)
	}
}
