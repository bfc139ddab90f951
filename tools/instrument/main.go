// Command instrument builds the overlay under which the simulator is compiled.
//
// It never writes to /repo, GOROOT or the module cache: every patched file is
// written to the work directory and handed to the compiler with -overlay.
//
//	instrument -repo /repo -work DIR -goroot DIR -modcache DIR
//
// A pattern that is not found is a build error (exit 3), never a verdict.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo     = flag.String("repo", "/repo", "")
	work     = flag.String("work", "", "")
	goroot   = flag.String("goroot", "", "")
	modcache = flag.String("modcache", "", "")
	nopoints = flag.Bool("nopoints", false, "do not insert yield points")
)

var overlay = map[string]string{}
var nfile int

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func put(target, content string) {
	nfile++
	p := filepath.Join(*work, "ov", fmt.Sprintf("%03d_%s", nfile, filepath.Base(target)))
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		die("%v", err)
	}
	overlay[target] = p
}

type edit struct {
	old, new string
	n        int // expected number of occurrences (default 1)
}

// patch applies textual edits to a file of GOROOT or of the module cache.
func patch(path string, es ...edit) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	put(path, edits(path, string(b), es...))
}

func edits(path, s string, es ...edit) string {
	for _, e := range es {
		n := e.n
		if n == 0 {
			n = 1
		}
		if c := strings.Count(s, e.old); c != n {
			die("%s: pattern %q occurs %d times, want %d", path, e.old, c, n)
		}
		s = strings.ReplaceAll(s, e.old, e.new)
	}
	return s
}

func main() {
	flag.Parse()
	if *work == "" || *goroot == "" || *modcache == "" {
		die("missing flags")
	}
	if err := os.MkdirAll(filepath.Join(*work, "ov"), 0o755); err != nil {
		die("%v", err)
	}
	std()
	deps()
	if err := instrumentRepo(); err != nil {
		die("%v", err)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*work, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	pj, _ := json.Marshal(points)
	os.WriteFile(filepath.Join(*work, "points.json"), pj, 0o644)
	sort.Strings(pkgsDone)
	fmt.Printf("instrument: %d overlay files, %d yield points in %v\n", len(overlay), len(points), pkgsDone)
}
