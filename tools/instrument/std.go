package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

const hookSrc = `// Package verifhook is the seam between the (patched) standard library and the
// simulator. Every hook is nil unless the simulator sets it.
package verifhook

import _ "unsafe"

// GetTag returns the simulator's tag of the calling goroutine (inherited from
// the goroutine that started it).
func GetTag() uint64 { return getTag() }

// SetTag sets the tag of the calling goroutine.
func SetTag(t uint64) { setTag(t) }

// SetRun switches the runtime's private randomness (select order, timer ties,
// map iteration, math/rand/v2) to values derived from seed.
func SetRun(on bool, seed uint64) { setRun(on, seed) }

//go:linkname getTag runtime.verifGetTagFn
var getTag func() uint64

//go:linkname setTag runtime.verifSetTagFn
var setTag func(uint64)

//go:linkname setRun runtime.verifSetRunFn
var setRun func(bool, uint64)

//go:linkname setStep runtime.verifSetStepFn
var setStep func(uint64)

// SetStep starts the streams of random numbers of all goroutines anew.
func SetStep(n uint64) { setStep(n) }

//go:linkname fork runtime.verifForkFn
var fork func() uint64

//go:linkname setSeed runtime.verifSetSeedFn
var setSeed func(uint64)

//go:linkname setPanic runtime.verifSetPanicFn
var setPanic func(func(any))

// SetPanic sets the function that decides what an unrecovered panic of a
// simulated process does; if it returns, the whole program ends as usual.
func SetPanic(f func(any)) { setPanic(f) }

// Handle is an open simulated file.
type Handle interface {
	Read(b []byte) (int, error)
	ReadAt(b []byte, off int64) (int, error)
	Write(b []byte) (int, error)
	WriteAt(b []byte, off int64) (int, error)
	Seek(off int64, whence int) (int64, error)
	Sync() error
	Close() error
	Truncate(n int64) error
	Stat() (any, error)
	ReadDir() ([]any, error)
}

var (
	Yield      func(id uint32)
	NowOffset  func() int64
	Dial       func(network, addr string) (any, error)
	Listen     func(network, addr string) (any, error)
	ServeStart func(op string, req any) func()
	Gateway    func(op string, rw, req any) (any, func())
	OpHeader   func(req any) string
	Response   func(op string, status int)
	SimPath    func(name string) bool
	OpenFile   func(name string, flag int, perm uint32) (Handle, error)
	Rename     func(a, b string) error
	Remove     func(name string) error
	RemoveAll  func(name string) error
	Link       func(a, b string) error
	Mkdir      func(name string) error
	Truncate   func(name string, n int64) error
	Stat       func(name string) (any, error)
	Notify     func(c any, sigs any) bool
	StopNotify func(c any) bool
	Exit       func(code int)
	MemTxn     func(db any)
	MemCommit  func(db any)
	MemDone    func(db any)
)

// GlobalSet is the package-level state of one package of the repository.
type GlobalSet struct {
	Pkg  string
	Init func()
	Ptrs []any
}

// RandPoint is the yield point inside a random source.
var RandPoint uint32 = ^uint32(0)

// Globals lists the packages in the order of their initialisation.
var Globals []GlobalSet

// Point is a yield point.
func Point(id uint32) {
	if y := Yield; y != nil {
		y(id)
	}
}

// Sim reports whether name belongs to the simulated file system.
func Sim(name string) bool { return SimPath != nil && SimPath(name) }

// Carry makes f run with the tag of the goroutine that called Carry.
func Carry(f func()) func() {
	if Yield == nil {
		return f
	}
	t := GetTag()
	if t == 0 {
		return f
	}
	s := fork()
	return func() { SetTag(t); setSeed(s); f() }
}
`

const randSrc = `// Package rand is math/rand, except that concurrent use of a source that is not
// guarded by a lock shows: two callers may draw the same number.
package rand

import (
	"math/rand"
	"verifhook"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	New         = rand.New
	NewZipf     = rand.NewZipf
	Seed        = rand.Seed
	Int63       = rand.Int63
	Uint32      = rand.Uint32
	Uint64      = rand.Uint64
	Int31       = rand.Int31
	Int         = rand.Int
	Int63n      = rand.Int63n
	Int31n      = rand.Int31n
	Intn        = rand.Intn
	Float64     = rand.Float64
	Float32     = rand.Float32
	Perm        = rand.Perm
	Shuffle     = rand.Shuffle
	Read        = rand.Read
	NormFloat64 = rand.NormFloat64
	ExpFloat64  = rand.ExpFloat64
)

type racy struct {
	s    rand.Source64
	at   uint64
	base uint64
	buf  []uint64
}

// NewSource is rand.NewSource.
func NewSource(seed int64) Source { return &racy{s: rand.NewSource(seed).(rand.Source64)} }

func (r *racy) Seed(seed int64) {
	r.s.Seed(seed)
	r.at, r.base, r.buf = 0, 0, nil
}

func (r *racy) Uint64() uint64 {
	i := r.at
	for r.base+uint64(len(r.buf)) <= i {
		r.buf = append(r.buf, r.s.Uint64())
	}
	var v uint64
	if i >= r.base {
		v = r.buf[i-r.base]
	}
	verifhook.Point(verifhook.RandPoint)
	r.at = i + 1
	if n := len(r.buf); n > 64 {
		r.base += uint64(n - 32)
		r.buf = append([]uint64(nil), r.buf[n-32:]...)
	}
	return v
}

func (r *racy) Int63() int64 { return int64(r.Uint64() & (1<<63 - 1)) }
`

const syncSrc = `// Package verifsync exports the runtime's bubble primitives to the simulator.
package verifsync

import "internal/synctest"

func Run(f func()) { synctest.Run(f) }
func Wait()        { synctest.Wait() }
`

const runtimeSrc = `package runtime

import _ "unsafe"

var (
	verifOn                bool
	verifMapSeed, verifSys uint64
	verifStep              uint64
)

//go:linkname verifForkFn
var verifForkFn = verifFork

//go:linkname verifSetSeedFn
var verifSetSeedFn = verifSetSeed

// Every goroutine has its own stream of random numbers, which starts anew at
// every step of the scheduler, so that what a goroutine draws does not depend
// on what others drew, nor on how much it drew itself in earlier steps (how
// often the runtime makes it look at a channel is not ours to decide).
//
//go:nosplit
func verifFresh(g *g) {
	k := verifStep
	if b := g.bubble; b != nil {
		k ^= uint64(b.now) * 0xff51afd7ed558ccd
	}
	if g.verifAt == k {
		return
	}
	g.verifAt = k
	s := g.verifSeed ^ k*0xd6e8feb86659fd93
	g.verifRnd = verifMix(&s)
	g.verifSel = verifMix(&s)
	g.verifForks = verifMix(&s)
}

//go:nosplit
func verifChild(g *g) uint64 {
	if g == g.m.g0 { // a timer starts a goroutine
		return verifMix(&verifSys)
	}
	verifFresh(g)
	return verifMix(&g.verifForks)
}

func verifFork() uint64 { return verifChild(getg()) }

func verifSetSeed(s uint64) { g := getg(); g.verifSeed, g.verifAt = s, ^s; verifFresh(g) }

//go:linkname verifSetStepFn
var verifSetStepFn = verifSetStep

func verifSetStep(n uint64) {
	verifStep = n * 0x9e3779b97f4a7c15
	verifSys = verifMapSeed ^ verifStep
}

//go:nosplit
func verifRand() uint64 {
	g := getg()
	if g == g.m.g0 {
		return verifMix(&verifSys)
	}
	verifFresh(g)
	return verifMix(&g.verifRnd)
}

// verifOrder decides ties. It is a stream of its own because the first use of
// some packages draws from the other one.
//
//go:nosplit
func verifOrder() uint64 {
	g := getg()
	if g == g.m.g0 {
		return verifMix(&verifSys)
	}
	verifFresh(g)
	return verifMix(&g.verifSel)
}

// verifTie orders timers that fire at the same instant. It must not draw from a
// stream: whether the runtime asks again for a timer that was stopped depends
// on whether it has already been cleaned out of the heap.
//
//go:nosplit
func verifTie(when uint64) uint32 {
	g := getg()
	if g == g.m.g0 {
		g = g.m.curg
	}
	if g == nil {
		return uint32(verifMix(&when) >> 20)
	}
	s := g.verifSeed ^ when*0xd6e8feb86659fd93
	return uint32(verifMix(&s) >> 20)
}

//go:linkname verifGetTagFn
var verifGetTagFn = verifGetTag

//go:linkname verifSetTagFn
var verifSetTagFn = verifSetTag

//go:linkname verifSetRunFn
var verifSetRunFn = verifSetRun

//go:linkname verifSetPanicFn
var verifSetPanicFn = verifSetPanic

var verifPanicFn func(any)

func verifSetPanic(f func(any)) { verifPanicFn = f }

func verifGetTag() uint64 { return getg().verifTag }

func verifSetTag(t uint64) { getg().verifTag = t }

//go:nosplit
func verifMix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func verifSetRun(on bool, seed uint64) {
	verifStep = 0
	s := seed + 3
	verifSetSeed(verifMix(&s))
	verifSys = seed + 5
	s = seed + 4
	verifMapSeed = verifMix(&s)
	verifOn = on
}
`

func std() {
	r := filepath.Join(*goroot, "src")
	j := func(p string) string { return filepath.Join(r, p) }

	put(j("verifhook/verifhook.go"), hookSrc)
	put(j("verifsync/verifsync.go"), syncSrc)
	put(j("verif/math/rand/rand.go"), randSrc)
	put(j("runtime/verif.go"), runtimeSrc)

	patch(j("runtime/runtime2.go"),
		edit{old: "\twaitReasonSynctestSelect:        true,\n}", new: "\twaitReasonSynctestSelect:        true,\n\twaitReasonSyncMutexLock: true, waitReasonSyncRWMutexRLock: true, waitReasonSyncRWMutexLock: true,\n\twaitReasonChanReceive: true, waitReasonChanSend: true, waitReasonSelect: true, waitReasonSyncWaitGroupWait: true,\n}"},
		edit{old: "\tlockedm         muintptr\n\tfipsIndicator   uint8\n", new: "\tlockedm         muintptr\n\tverifTag        uint64\n\tverifSeed, verifAt, verifRnd, verifSel, verifForks uint64\n\tfipsIndicator   uint8\n"},
	)
	patch(j("runtime/proc.go"),
		edit{old: "\tnewg.parentGoid = callergp.goid\n", new: "\tnewg.parentGoid = callergp.goid\n\tnewg.verifTag = callergp.verifTag\n\tnewg.verifSeed = verifChild(callergp)\n\tnewg.verifAt = ^verifStep\n"},
		edit{old: "\t\t} else if pd.schedwhen+forcePreemptNS <= now {\n", new: "\t\t} else if !verifOn && pd.schedwhen+forcePreemptNS <= now {\n"},
	)
	patch(j("runtime/sema.go"),
		edit{old: "func internal_sync_nanotime() int64 {\n", new: "func internal_sync_nanotime() int64 {\n\tif verifOn {\n\t\tif b := getg().bubble; b != nil {\n\t\t\treturn b.now\n\t\t}\n\t}\n"},
	)
	patch(j("runtime/select.go"),
		edit{old: "\t\tj := cheaprandn(uint32(norder + 1))\n", new: "\t\tvar j uint32\n\t\tif verifOn && getg().bubble != nil {\n\t\t\tj = uint32(verifOrder()>>11) % uint32(norder+1)\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"},
	)
	patch(j("runtime/time.go"),
		edit{old: "\t\t\tt.rand = cheaprand()\n", new: "\t\t\tif verifOn {\n\t\t\t\tt.rand = verifTie(uint64(t.when))\n\t\t\t} else {\n\t\t\t\tt.rand = cheaprand()\n\t\t\t}\n"},
	)
	patch(j("runtime/rand.go"),
		edit{old: "func rand() uint64 {\n\t// Note: We avoid", new: "func rand() uint64 {\n\tif verifOn && getg().bubble != nil {\n\t\treturn verifRand()\n\t}\n\t// Note: We avoid"},
		edit{old: "func maps_rand() uint64 {\n", new: "func maps_rand() uint64 {\n\tif verifOn {\n\t\treturn verifMapSeed\n\t}\n"},
		edit{old: "\treturn uint32(rand())\n}\n\n// rand returns", new: "\tif verifOn {\n\t\treturn uint32(verifMapSeed)\n\t}\n\treturn uint32(rand())\n}\n\n// rand returns"},
	)
	patch(j("internal/runtime/maps/runtime_alg.go"),
		edit{old: "uintptr(bootstrapRand())", new: "uintptr(uint64(i+1) * 0x9e3779b97f4a7c15)"},
		edit{old: "\t\tkey[i] = bootstrapRand()\n", new: "\t\tkey[i] = uint64(i+1) * 0xbf58476d1ce4e5b9\n"},
	)
	patch(j("runtime/panic.go"),
		edit{old: "\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return\n", new: "\tif verifOn && verifPanicFn != nil && getg().bubble != nil {\n\t\tverifPanicFn(p.arg)\n\t}\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return\n"},
	)
	patch(j("runtime/synctest.go"),
		edit{old: "\tif total != 1 {\n", new: "\tif total != 1 && !(verifOn && bubble.done) {\n"},
	)

	patch(j("time/time.go"),
		edit{old: "\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t}\n\tmono -= startNano\n\tsec += unixToInternal - minWall\n", new: "\tsec, nsec, mono := runtimeNow()\n\tif h := verifhook.NowOffset; h != nil {\n\t\tif off := h(); off != 0 {\n\t\t\tt := sec*1e9 + int64(nsec) + off\n\t\t\tsec, nsec = t/1e9, int32(t%1e9)\n\t\t\tif nsec < 0 {\n\t\t\t\tsec, nsec = sec-1, nsec+1e9\n\t\t\t}\n\t\t}\n\t}\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t}\n\tmono -= startNano\n\tsec += unixToInternal - minWall\n"},
		edit{old: "\t_ \"unsafe\" // for go:linkname\n)", new: "\t_ \"unsafe\" // for go:linkname\n\t\"verifhook\"\n)"},
	)
	patch(j("time/sleep.go"),
		edit{old: "\treturn newTimer(when(d), 0, goFunc, f, nil)\n", new: "\treturn newTimer(when(d), 0, goFunc, verifhook.Carry(f), nil)\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)

	patch(j("net/dial.go"),
		edit{old: "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", new: "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif verifhook.Dial != nil {\n\t\tc, err := verifhook.Dial(network, address)\n\t\tif err != nil {\n\t\t\treturn nil, &OpError{Op: \"dial\", Net: network, Err: err}\n\t\t}\n\t\treturn c.(Conn), nil\n\t}\n"},
		edit{old: "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", new: "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif verifhook.Listen != nil {\n\t\tl, err := verifhook.Listen(network, address)\n\t\tif err != nil {\n\t\t\treturn nil, &OpError{Op: \"listen\", Net: network, Err: err}\n\t\t}\n\t\treturn l.(Listener), nil\n\t}\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("net/http/server.go"),
		edit{old: "func (sh serverHandler) ServeHTTP(rw ResponseWriter, req *Request) {\n", new: "func (sh serverHandler) ServeHTTP(rw ResponseWriter, req *Request) {\n\tif verifhook.ServeStart != nil {\n\t\top := req.Header.Get(\"X-Sim-Op\")\n\t\treq.Header.Del(\"X-Sim-Op\")\n\t\tif w, fin := verifhook.Gateway(op, rw, req); fin != nil {\n\t\t\tdefer fin()\n\t\t\tif w == nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\trw = w.(ResponseWriter)\n\t\t}\n\t\tdefer verifhook.ServeStart(op, req)()\n\t}\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
		// Connections are closed in the order they were opened, not in the order of their addresses.
		edit{old: "activeConn    map[*conn]struct{}\n", new: "activeConn    map[*conn]uint64\n"},
		edit{old: "make(map[*conn]struct{})", new: "make(map[*conn]uint64)"},
		edit{old: "s.activeConn[c] = struct{}{}", new: "verifConns++\n\t\ts.activeConn[c] = verifConns"},
		edit{old: "for c := range s.activeConn {", new: "for _, c := range verifSorted(s.activeConn) {", n: 2},
		edit{old: "func (s *Server) trackConn(c *conn, add bool) {\n", new: "var verifConns uint64\n\nfunc verifSorted(m map[*conn]uint64) (out []*conn) {\n\tfor c := range m {\n\t\ti := len(out)\n\t\tout = append(out, c)\n\t\tfor ; i > 0 && m[out[i-1]] > m[c]; i-- {\n\t\t\tout[i] = out[i-1]\n\t\t}\n\t\tout[i] = c\n\t}\n\treturn\n}\n\nfunc (s *Server) trackConn(c *conn, add bool) {\n"},
	)
	patch(j("context/context.go"),
		edit{old: "children map[canceler]struct{} //", new: "children map[canceler]uint64 //"},
		edit{old: "make(map[canceler]struct{})", new: "make(map[canceler]uint64)"},
		edit{old: "p.children[child] = struct{}{}", new: "p.children[child] = verifSeq.Add(1)"},
		edit{old: "\tfor child := range c.children {\n", new: "\tfor _, child := range verifSorted(c.children) {\n"},
		edit{old: "// removeChild removes a context from its parent.\n", new: "// Children are canceled in the order they were made, not in the order of their addresses.\nvar verifSeq atomic.Uint64\n\nfunc verifSorted(m map[canceler]uint64) (out []canceler) {\n\tfor c := range m {\n\t\ti := len(out)\n\t\tout = append(out, c)\n\t\tfor ; i > 0 && m[out[i-1]] > m[c]; i-- {\n\t\t\tout[i] = out[i-1]\n\t\t}\n\t\tout[i] = c\n\t}\n\treturn\n}\n\n// removeChild removes a context from its parent.\n"},
	)
	patch(j("net/http/transport.go"),
		edit{old: "\tif pc.t.DisableKeepAlives &&\n", new: "\tif verifhook.OpHeader != nil {\n\t\tif op := verifhook.OpHeader(req.Request); op != \"\" {\n\t\t\treq.extraHeaders().Set(\"X-Sim-Op\", op)\n\t\t}\n\t}\n\n\tif pc.t.DisableKeepAlives &&\n"},
		edit{old: "\tpc.readLimit = maxInt64 // effectively no limit for response bodies\n", new: "\tpc.readLimit = maxInt64 // effectively no limit for response bodies\n\t\tif verifhook.Response != nil {\n\t\t\tverifhook.Response(rc.treq.extraHeaders().Get(\"X-Sim-Op\"), resp.StatusCode)\n\t\t}\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)

	// File system.
	guard := func(cond, body string) string {
		return "\tif " + cond + " {\n" + body + "\t}\n"
	}
	patch(j("os/file_unix.go"),
		edit{old: "\tinRoot      bool                    // whether file is opened in a Root\n", new: "\tinRoot      bool                    // whether file is opened in a Root\n\tverif       verifhook.Handle\n"},
		edit{old: "func (file *file) close() error {\n", new: "func (file *file) close() error {\n\tif file != nil && file.verif != nil {\n\t\tif err := file.verif.Close(); err != nil {\n\t\t\tif err == ErrClosed {\n\t\t\t\treturn &PathError{Op: \"close\", Path: file.name, Err: ErrClosed}\n\t\t\t}\n\t\t\treturn &PathError{Op: \"close\", Path: file.name, Err: err}\n\t\t}\n\t\treturn nil\n\t}\n"},
		edit{old: "func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n", new: "func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n" + guard("f.verif != nil", "\t\treturn f.verif.Seek(offset, whence)\n")},
		edit{old: "func Truncate(name string, size int64) error {\n", new: "func Truncate(name string, size int64) error {\n" + guard("verifhook.Sim(name)", "\t\tif err := verifhook.Truncate(name, size); err != nil {\n\t\t\treturn &PathError{Op: \"truncate\", Path: name, Err: err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "func Remove(name string) error {\n", new: "func Remove(name string) error {\n" + guard("verifhook.Sim(name)", "\t\tif err := verifhook.Remove(name); err != nil {\n\t\t\treturn &PathError{Op: \"remove\", Path: name, Err: err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "func Link(oldname, newname string) error {\n", new: "func Link(oldname, newname string) error {\n" + guard("verifhook.Sim(oldname)", "\t\tif err := verifhook.Link(oldname, newname); err != nil {\n\t\t\treturn &LinkError{\"link\", oldname, newname, err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "func rename(oldname, newname string) error {\n", new: "func rename(oldname, newname string) error {\n" + guard("verifhook.Sim(oldname) || verifhook.Sim(newname)", "\t\tif err := verifhook.Rename(oldname, newname); err != nil {\n\t\t\treturn &LinkError{\"rename\", oldname, newname, err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", new: "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n" + guard("verifhook.Sim(name)", "\t\th, err := verifhook.OpenFile(name, flag, uint32(perm))\n\t\tif err != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t\treturn &File{&file{name: name, verif: h, appendMode: flag&O_APPEND != 0}}, nil\n")},
		edit{old: "func openDirNolog(name string) (*File, error) {\n", new: "func openDirNolog(name string) (*File, error) {\n" + guard("verifhook.Sim(name)", "\t\treturn openFileNolog(name, O_RDONLY, 0)\n")},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/file_posix.go"),
		edit{old: "func (f *File) read(b []byte) (n int, err error) {\n", new: "func (f *File) read(b []byte) (n int, err error) {\n" + guard("f.verif != nil", "\t\treturn f.verif.Read(b)\n")},
		edit{old: "func (f *File) pread(b []byte, off int64) (n int, err error) {\n", new: "func (f *File) pread(b []byte, off int64) (n int, err error) {\n" + guard("f.verif != nil", "\t\treturn f.verif.ReadAt(b, off)\n")},
		edit{old: "func (f *File) write(b []byte) (n int, err error) {\n", new: "func (f *File) write(b []byte) (n int, err error) {\n" + guard("f.verif != nil", "\t\treturn f.verif.Write(b)\n")},
		edit{old: "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n", new: "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n" + guard("f.verif != nil", "\t\treturn f.verif.WriteAt(b, off)\n")},
		edit{old: "func chmod(name string, mode FileMode) error {\n", new: "func chmod(name string, mode FileMode) error {\n" + guard("verifhook.Sim(name)", "\t\treturn nil\n")},
		edit{old: "func (f *File) chmod(mode FileMode) error {\n", new: "func (f *File) chmod(mode FileMode) error {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\treturn nil\n")},
		edit{old: "func Chown(name string, uid, gid int) error {\n", new: "func Chown(name string, uid, gid int) error {\n" + guard("verifhook.Sim(name)", "\t\treturn nil\n")},
		edit{old: "func Chtimes(name string, atime time.Time, mtime time.Time) error {\n", new: "func Chtimes(name string, atime time.Time, mtime time.Time) error {\n" + guard("verifhook.Sim(name)", "\t\treturn nil\n")},
		edit{old: "func (f *File) Truncate(size int64) error {\n", new: "func (f *File) Truncate(size int64) error {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\tif err := f.verif.Truncate(size); err != nil {\n\t\t\treturn &PathError{Op: \"truncate\", Path: f.name, Err: err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "func (f *File) Sync() error {\n", new: "func (f *File) Sync() error {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\tif err := f.verif.Sync(); err != nil {\n\t\t\treturn &PathError{Op: \"sync\", Path: f.name, Err: err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/file.go"),
		edit{old: "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n", new: "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\treturn genericReadFrom(f, r)\n")},
		edit{old: "func (f *File) WriteTo(w io.Writer) (n int64, err error) {\n", new: "func (f *File) WriteTo(w io.Writer) (n int64, err error) {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\treturn genericWriteTo(f, w)\n")},
		edit{old: "func Mkdir(name string, perm FileMode) error {\n", new: "func Mkdir(name string, perm FileMode) error {\n" + guard("verifhook.Sim(name)", "\t\tif err := verifhook.Mkdir(name); err != nil {\n\t\t\treturn &PathError{Op: \"mkdir\", Path: name, Err: err}\n\t\t}\n\t\treturn nil\n")},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/stat_unix.go"),
		edit{old: "func (f *File) Stat() (FileInfo, error) {\n", new: "func (f *File) Stat() (FileInfo, error) {\n" + guard("f != nil && f.file != nil && f.verif != nil", "\t\tfi, err := f.verif.Stat()\n\t\tif err != nil {\n\t\t\treturn nil, &PathError{Op: \"stat\", Path: f.name, Err: err}\n\t\t}\n\t\treturn fi.(FileInfo), nil\n")},
		edit{old: "func statNolog(name string) (FileInfo, error) {\n", new: "func statNolog(name string) (FileInfo, error) {\n" + guard("verifhook.Sim(name)", "\t\tfi, err := verifhook.Stat(name)\n\t\tif err != nil {\n\t\t\treturn nil, &PathError{Op: \"stat\", Path: name, Err: err}\n\t\t}\n\t\treturn fi.(FileInfo), nil\n")},
		edit{old: "func lstatNolog(name string) (FileInfo, error) {\n", new: "func lstatNolog(name string) (FileInfo, error) {\n" + guard("verifhook.Sim(name)", "\t\treturn statNolog(name)\n")},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/removeall_at.go"),
		edit{old: "func removeAll(path string) error {\n", new: "func removeAll(path string) error {\n" + guard("verifhook.Sim(path)", "\t\treturn verifhook.RemoveAll(path)\n")},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/dir_unix.go"),
		edit{old: "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n", new: "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n" + guard("f.verif != nil", "\t\tes, err := f.verif.ReadDir()\n\t\tfor _, e := range es {\n\t\t\tde := e.(DirEntry)\n\t\t\tnames = append(names, de.Name())\n\t\t\tdirents = append(dirents, de)\n\t\t\tif fi, err := de.Info(); err == nil {\n\t\t\t\tinfos = append(infos, fi)\n\t\t\t}\n\t\t}\n\t\treturn names, dirents, infos, err\n")},
	)
	patch(j("os/proc.go"),
		edit{old: "func Exit(code int) {\n", new: "func Exit(code int) {\n\tif verifhook.Exit != nil {\n\t\tverifhook.Exit(code)\n\t}\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
	patch(j("os/signal/signal.go"),
		edit{old: "\t\tpanic(\"os/signal: Notify using nil channel\")\n\t}\n", new: "\t\tpanic(\"os/signal: Notify using nil channel\")\n\t}\n\tif verifhook.Notify != nil && verifhook.Notify(c, sig) {\n\t\treturn\n\t}\n"},
		edit{old: "func Stop(c chan<- os.Signal) {\n", new: "func Stop(c chan<- os.Signal) {\n\tif verifhook.StopNotify != nil && verifhook.StopNotify(c) {\n\t\treturn\n\t}\n"},
		edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"},
	)
}

// deps copies the modules that need a hook (files of the module cache cannot
// be overlaid) and writes the module file under which the simulator is built.
func deps() {
	v := memdbVersion()
	src := filepath.Join(*modcache, "github.com/hashicorp", "go-memdb@"+v)
	dst := filepath.Join(*work, "memdb")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		die("%v", err)
	}
	es, err := os.ReadDir(src)
	if err != nil {
		die("%v", err)
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") || !strings.HasSuffix(n, ".go") && n != "go.mod" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		switch n {
		case "memdb.go":
			s = edits(n, s,
				edit{old: "\tif write {\n\t\tdb.writer.Lock()\n\t}\n", new: "\tif write {\n\t\tif verifhook.MemTxn != nil {\n\t\t\tverifhook.MemTxn(db)\n\t\t}\n\t\tdb.writer.Lock()\n\t}\n"},
				edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"})
		case "txn.go":
			s = edits(n, s,
				edit{old: "\tatomic.StorePointer(&txn.db.root, unsafe.Pointer(newRoot))\n", new: "\tatomic.StorePointer(&txn.db.root, unsafe.Pointer(newRoot))\n\tif verifhook.MemCommit != nil {\n\t\tverifhook.MemCommit(txn.db)\n\t}\n"},
				edit{old: "\t// Run the deferred functions, if any\n", new: "\tif verifhook.MemDone != nil {\n\t\tverifhook.MemDone(txn.db)\n\t}\n\t// Run the deferred functions, if any\n"},
				edit{old: "import (\n", new: "import (\n\t\"verifhook\"\n"})
		}
		p := filepath.Join(dst, n)
		if old, err := os.ReadFile(p); err == nil && string(old) == s {
			continue
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			die("%v", err)
		}
	}
	// The module file: the repository's own requirements, plus the repository.
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	mod := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(b), "module github.com/hyperonym/ratus/verifsim")
	mod += "\nrequire github.com/hyperonym/ratus v0.0.0\n\nreplace github.com/hyperonym/ratus => " + *repo +
		"\n\nreplace github.com/hashicorp/go-memdb => " + dst + "\n"
	if err := os.WriteFile(filepath.Join(*work, "go.mod"), []byte(mod), 0o644); err != nil {
		die("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*work, "go.sum"), sum, 0o644); err != nil {
		die("%v", err)
	}
}
