package main

import (
	"crypto/rand"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"os/signal"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
	"verifhook"

	"github.com/hyperonym/ratus/internal/verifmain"
)

// Node is a machine that runs the real ratus program, one process at a time.
type Node struct {
	w                *World
	idx              int
	cfg              NodeCfg
	host             string
	inc              *Inc
	fs               *simFS
	store            *Store
	skew             time.Duration
	minSkew, maxSkew time.Duration
	upCh             chan struct{}
	upWait           bool
	starts           int
	everStalled      bool
	everKilled       bool
	restartAfterExit time.Duration
	diskBadUntil     time.Time
	diskEverBad      bool
	bootPending      bool
	noRestart        bool
	stallTotal       time.Duration
	pausedTo         time.Time
	jumpedAt         time.Time
	lastEnd          endRec
	diskWindows      []diskWindow
	lastBootVer      int
	lastBootAt       time.Time
	boots            []bootRec
	choreSeen        []time.Time
	exits            []exitRec
}

type bootRec struct {
	at  time.Time
	ver int
}

type endRec struct {
	at   time.Time
	kind string // exit, kill, power
	code int
	ver  int
	shut time.Duration // since the termination signal, if there was one
}

type exitRec struct {
	at        time.Time
	code      int
	signalled bool
	ver       int
	inc       *Inc
}

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func (w *World) addNode(cfg NodeCfg) *Node {
	n := &Node{w: w, idx: len(w.nodes), cfg: cfg, host: fmt.Sprintf("n%d", len(w.nodes)), upCh: make(chan struct{})}
	n.fs = newFS(w, n.idx)
	n.skew = time.Duration(cfg.SkewMS) * time.Millisecond
	n.minSkew, n.maxSkew = n.skew, n.skew
	w.nodes = append(w.nodes, n)
	return n
}

func (n *Node) setSkew(d time.Duration) {
	n.skew = d
	n.minSkew = min(n.minSkew, d)
	n.maxSkew = max(n.maxSkew, d)
}

func (n *Node) alive() bool { return n.inc != nil && !n.inc.dead }

func (n *Node) retention() time.Duration {
	if n.cfg.RetMS == 0 {
		return 72 * time.Hour
	}
	return time.Duration(n.cfg.RetMS) * time.Millisecond
}

func (n *Node) chore() time.Duration {
	if n.cfg.DefaultChore {
		return 10 * time.Second
	}
	return time.Duration(n.cfg.ChoreMS) * time.Millisecond
}

func (n *Node) port() int {
	if n.cfg.Port < 0 {
		return 0
	}
	if n.cfg.Port == 0 {
		return 80
	}
	return n.cfg.Port
}

func (n *Node) args() []string {
	c := n.cfg
	ms := func(x int) string { return strconv.Itoa(x) + "ms" }
	a := []string{"ratus", "--engine", c.Engine, "--port", strconv.Itoa(n.port())}
	if !c.DefaultChore {
		a = append(a, "--chore-interval", ms(c.ChoreMS), "--chore-initial-delay", ms(c.DelayMS))
		if c.Random {
			a = append(a, "--chore-initial-random")
		}
	}
	if c.MaxLimit > 0 {
		a = append(a, "--pagination-max-limit", strconv.Itoa(c.MaxLimit))
	}
	if c.MaxOffset > 0 {
		a = append(a, "--pagination-max-offset", strconv.Itoa(c.MaxOffset))
	}
	if c.Engine == "memdb" {
		if c.SnapMS > 0 {
			a = append(a, "--memdb-snapshot-path", snapPath, "--memdb-snapshot-interval", ms(c.SnapMS))
		}
		if c.RetMS > 0 {
			a = append(a, "--memdb-retention-period", ms(c.RetMS))
		}
	} else {
		a = append(a, "--mongodb-uri", n.w.mongo.uri())
		if c.RetMS > 0 {
			a = append(a, "--mongodb-retention-period", ms(c.RetMS))
		}
		if c.NoIndex {
			a = append(a, "--mongodb-disable-index-creation")
		}
		if c.NoAuto {
			a = append(a, "--mongodb-disable-auto-fallback")
		}
		if c.NoAtomic {
			a = append(a, "--mongodb-disable-atomic-poll")
		}
	}
	return a
}

// boot starts the program. It runs in the controller's context.
func (n *Node) boot() {
	w := n.w
	inc := w.newInc("node", n.host, n.idx)
	inc.fs = n.fs
	inc.store = n.store
	inc.booting = true
	n.inc = inc
	n.starts++
	n.upWait = true
	n.restartAfterExit = 0
	w.logf("BOOT %s %v", n.host, n.args()[1:])
	go func() {
		verifhook.SetTag(mkTag(inc, 0))
		// No two processes start at exactly the same nanosecond.
		time.Sleep(time.Duration(inc.idx*13 + 7))
		dieIfDead(inc)
		w.own(inc)
		os.Args = n.args()
		verifmain.Main()
		n.exited(inc, 0)
		select {}
	}()
}

// onUp runs when the process starts listening.
func (n *Node) onUp() {
	if s := n.store; s != nil && s.engine == "memdb" && s.dbInc != n.inc {
		// No snapshot was there to load: the process starts empty.
		s.dbInc, s.db = n.inc, nil
		n.w.orc.restored(n, s, State{}, n.inc)
	}
	if n.upWait {
		n.upWait = false
		close(n.upCh)
	}
}

func (n *Node) ready() bool { return n.alive() && n.inc.up }

func (n *Node) waitUp() {
	for !n.ready() {
		if n.w.stop {
			return
		}
		<-n.upCh
	}
}

func (n *Node) down() {
	if !n.upWait {
		n.upCh = make(chan struct{})
		n.upWait = true
	}
}

func (n *Node) kill(power bool, keepDir, torn int) {
	w := n.w
	inc := n.inc
	inc.dead = true
	inc.ended = w.now()
	n.everKilled = true
	for _, l := range inc.listeners {
		l.closed = true
		for _, c := range l.q {
			c.kill()
		}
	}
	for _, c := range inc.conns {
		c.kill()
	}
	if power {
		n.noteEnd("power", -1)
	} else {
		n.noteEnd("kill", -1)
	}
	if n.store != nil && n.cfg.Engine == "memdb" {
		n.store.crashed(n, inc)
	}
	w.logf("KILL %s power=%v", n.host, power)
	if power {
		n.fs.powerLoss(keepDir, torn)
	}
	n.down()
	n.scheduleRestart()
	w.wakeup()
}

func (n *Node) exited(inc *Inc, code int) {
	w := n.w
	if inc.dead {
		select {}
	}
	inc.dead = true
	inc.exited = true
	inc.exitCode = code
	inc.ended = w.now()
	w.logf("EXIT %s code=%d", n.host, code)
	e := exitRec{at: w.now(), code: code, signalled: inc.signalled, inc: inc}
	if n.store != nil {
		e.ver = n.store.head()
	}
	n.exits = append(n.exits, e)
	n.noteEnd("exit", code)
	for _, l := range inc.listeners {
		l.closed = true
		for _, c := range l.q {
			c.kill()
		}
	}
	for _, c := range inc.conns {
		c.kill()
	}
	n.down()
	w.orc.onExit(n, inc, code)
	n.scheduleRestart()
	w.wakeup()
}

func (n *Node) scheduleRestart() {
	if n.restartAfterExit > 0 {
		d := n.restartAfterExit - 1
		n.restartAfterExit = 0
		n.w.after(d, 0, "restart", func() {
			if !n.alive() && !n.w.stop {
				n.boot()
			}
		})
	}
}

func (n *Node) signal(k string) {
	var s os.Signal = syscall.SIGTERM
	if k == "int" {
		s = os.Interrupt
	}
	inc := n.inc
	got := false
	for _, r := range inc.sigs {
		ok := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == s {
				ok = true
			}
		}
		if ok {
			got = true
			select {
			case r.c <- s:
			default:
			}
		}
	}
	n.w.logf("SIGNAL %s %v handled=%v", n.host, s, got)
	if !inc.signalled {
		inc.signalled = true
		inc.sigAt = n.w.now()
	}
	if !got {
		// Default action: the process dies.
		n.kill(false, 0, 0)
	}
}

func (n *Node) diskBad(d time.Duration) {
	w := n.w
	n.diskEverBad = true
	n.diskBadUntil = w.now().Add(d)
	n.diskWindows = append(n.diskWindows, diskWindow{w.now(), w.now().Add(d)})
	w.after(d, 0, "disk heals", func() {
		n.fs.full = false
		n.fs.eio = map[string]bool{}
		n.diskBadUntil = w.now()
		w.logf("disk of %s heals", n.host)
	})
}

type simRand struct{ r *rng }

func (s simRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(s.r.u64() >> 24)
	}
	return len(b), nil
}

type logWriter struct{}

func (logWriter) Write(b []byte) (int, error) {
	if W != nil {
		if inc := curInc(); inc != nil {
			inc.lastLog = strings.TrimSpace(string(b))
			if W.verbose {
				W.logf("log %s: %s", inc.host, strings.TrimSpace(string(b)))
			}
			if inc.node >= 0 && strings.Contains(string(b), "http: panic serving") {
				W.orc.onPanic(inc, string(b))
			}
		}
	}
	return len(b), nil
}

// onCrash runs when a panic would end a simulated process.
func onCrash(v any) {
	inc := curInc()
	if W == nil || inc == nil || inc.kind == "ctl" {
		return
	}
	dieIfDead(inc)
	msg := fmt.Sprint(v)
	stack := string(debug.Stack())
	if inc.node >= 0 {
		inc.lastLog = "panic: " + msg
		inc.panicked = true
		W.logf("PANIC %s %s\n%s", inc.host, msg, stack)
		W.nodes[inc.node].exited(inc, 2)
	} else {
		if strings.Contains(panicSite(stack), "/sim/") {
			return // the harness itself
		}
		inc.dead = true
		W.violate(ps("C16", "C17", "C20"), "client-panic", "the client library panicked: %s (%s)", msg, panicSite(stack))
		W.abort = true
		W.wakeup()
	}
	select {}
}

// panicSite is the first source line below the panic.
func panicSite(stack string) string {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return ""
	}
	l := strings.Split(stack[i:], "\n")
	if len(l) > 3 {
		return strings.TrimSpace(l[3])
	}
	return ""
}

func installHooks() {
	verifhook.Yield = yield
	verifhook.NowOffset = func() int64 {
		w := W
		if w == nil || w.noSkew {
			return 0
		}
		t := verifhook.GetTag()
		if t == 0 {
			return 0
		}
		inc := w.incs[t>>32]
		if inc.kind == "node" && inc.node < len(w.nodes) {
			return int64(w.nodes[inc.node].skew)
		}
		return int64(inc.skew)
	}
	verifhook.Notify = func(c any, sigs any) bool {
		inc := curInc()
		if inc == nil {
			return true
		}
		dieIfDead(inc)
		inc.booting = false
		inc.sigs = append(inc.sigs, sigReg{c.(chan<- os.Signal), sigs.([]os.Signal)})
		return true
	}
	verifhook.StopNotify = func(c any) bool {
		inc := curInc()
		if inc == nil {
			return true
		}
		out := inc.sigs[:0]
		for _, r := range inc.sigs {
			if r.c != c.(chan<- os.Signal) {
				out = append(out, r)
			}
		}
		inc.sigs = out
		return true
	}
	_ = signal.Notify
	verifhook.Exit = func(code int) {
		inc := curInc()
		if inc == nil || inc.kind != "node" {
			return // the worker itself exits
		}
		W.nodes[inc.node].exited(inc, code)
		select {}
	}
	verifhook.SetPanic(onCrash)
	verifhook.ServeStart = serveStart
	verifhook.Gateway = gateway
	verifhook.OpHeader = opHeader
	verifhook.Response = onResponse
	verifhook.MemTxn = memTxn
	verifhook.MemCommit = memCommit
	verifhook.MemDone = func(any) {}
	installNetHooks()
	installFSHooks()
	log.SetOutput(logWriter{})
	log.SetFlags(0)
	_ = io.Discard
	_ = rand.Reader
	_ = math.MaxInt
}
