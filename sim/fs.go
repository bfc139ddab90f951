package main

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"verifhook"
)

// simFS is the disk of one machine. Paths live under /simfs.
//
// Two views are kept: what the operating system shows (cur) and what survives
// a power loss (dur). A kill keeps cur. File data becomes durable on fsync or
// after dataFlush; directory operations become durable in order: all of them
// on a directory fsync, the first k of them at random on power loss, and any
// older than dirFlush.
type simFS struct {
	w            *World
	node         int
	dir          map[string]*inode // name -> inode
	ddir         map[string]*inode // durable
	dirs         map[string]bool
	log          []dirOp
	clock        int
	err          map[string]*diskErr
	full         bool // ENOSPC on writes
	eio          map[string]bool
	saves        []saveRec
	lockoutUntil time.Time
	stats        map[string]int
	nfaults      int // faults so far
	inline       int // of these, single failing operations
	lastFault    time.Time
}

type saveRec struct {
	created time.Time // when the file that was renamed into place was created
	version int       // store version when it was created
	done    time.Time
	durable bool
	ino     *inode
}

type diskErr struct{}

type inode struct {
	data    []byte
	dur     []byte // durable prefix/content
	created time.Time
	createV int
	mtime   time.Time
	dirty   time.Time
	synced  bool
	ops     int
}

type dirOp struct {
	at   time.Time
	kind string // link, unlink, rename
	a, b string
	ino  *inode
}

const snapPath = "/simfs/ratus.db"

const dataFlush = 30 * time.Second
const dirFlush = 5 * time.Second

func newFS(w *World, node int) *simFS {
	return &simFS{w: w, node: node, dir: map[string]*inode{}, ddir: map[string]*inode{}, dirs: map[string]bool{"/simfs": true}, eio: map[string]bool{}, stats: map[string]int{}}
}

func fsOf() (*simFS, *Inc) {
	inc := curInc()
	if inc == nil || inc.fs == nil {
		return nil, inc
	}
	return inc.fs, inc
}

func (s *simFS) settle() {
	now := s.w.now()
	for _, i := range s.dir {
		if !i.dirty.IsZero() && now.Sub(i.dirty) >= dataFlush {
			i.dur = append([]byte(nil), i.data...)
			i.dirty = time.Time{}
		}
	}
	for len(s.log) > 0 && now.Sub(s.log[0].at) >= dirFlush {
		s.applyDur(s.log[0])
		s.log = s.log[1:]
	}
}

func (s *simFS) applyDur(o dirOp) {
	switch o.kind {
	case "link":
		s.ddir[o.a] = o.ino
	case "unlink":
		delete(s.ddir, o.a)
	case "rename":
		delete(s.ddir, o.a)
		s.ddir[o.b] = o.ino
	}
}

// powerLoss drops what was not durable; keep decides how much survives.
func (s *simFS) powerLoss(keepDir int, torn int) {
	s.settle()
	w := s.w
	k := len(s.log) * keepDir / 100
	for i, o := range s.log {
		if i < k {
			s.applyDur(o)
		}
	}
	if k < len(s.log) {
		w.injected["disk-lost-dir-ops"] += len(s.log) - k
	}
	s.log = nil
	s.dir = map[string]*inode{}
	names := make([]string, 0, len(s.ddir))
	for n := range s.ddir {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[*inode]bool{}
	for _, n := range names {
		i := s.ddir[n]
		if !done[i] {
			done[i] = true
			if !i.dirty.IsZero() {
				// Unsynced data: a prefix beyond the durable part may survive.
				keep := len(i.data) * torn / 100
				if keep < len(i.dur) {
					i.data = append([]byte(nil), i.dur...)
				} else {
					i.data = append([]byte(nil), i.data[:keep]...)
				}
				i.dur = append([]byte(nil), i.data...)
				i.dirty = time.Time{}
				w.injected["disk-lost-data"]++
			}
		}
		s.dir[n] = i
	}
}

// fault decides whether the operation fails; it also counts disk operations.
func (s *simFS) fault(op string) error {
	err := s.fault1(op)
	if err != nil {
		switch op {
		case "create", "write", "sync", "close", "rename":
			if inc := curInc(); inc != nil {
				inc.failedSave = s.w.now()
			}
		}
		s.nfaults++
		s.lastFault = s.w.now()
	}
	return err
}

func (s *simFS) fault1(op string) error {
	w := s.w
	w.count("fs:" + op)
	s.stats[op]++
	fs := w.fireN("fs", s.node)
	if inc := curInc(); inc != nil {
		dieIfDead(inc)
	}
	for _, f := range fs {
		if f.K == "disk-err" {
			w.injected["disk-"+f.S+"-"+op]++
			s.inline++
			if f.S == "enospc" {
				return syscall.ENOSPC
			}
			return syscall.EIO
		}
		if f.K == "disk-short" && op == "write" {
			w.injected["disk-short-write"]++
			s.inline++
			return errShort
		}
	}
	if w.healed {
		return nil
	}
	if s.full && (op == "write" || op == "create" || op == "sync" || op == "close") {
		if op != "close" || s.eio["close"] {
			w.injected["disk-full-"+op]++
			return syscall.ENOSPC
		}
	}
	if s.eio[op] {
		w.injected["disk-eio-"+op]++
		return syscall.EIO
	}
	return nil
}

var errShort = syscall.Errno(0xfff1)

func fsPark() (*simFS, *Inc) {
	s, inc := fsOf()
	forcePark(ptFS)
	return s, inc
}

type handle struct {
	s      *simFS
	inc    *Inc
	i      *inode
	name   string
	off    int64
	app    bool
	wr     bool
	isDir  bool
	closed bool
	read   bool
}

func (s *simFS) version() int {
	if s.node < len(s.w.nodes) && s.w.nodes[s.node].store != nil {
		return s.w.nodes[s.node].store.head()
	}
	return 0
}

func clean(n string) string { return path.Clean(n) }

func fsOpen(name string, flag int, perm uint32) (verifhook.Handle, error) {
	s, inc := fsPark()
	if s == nil {
		return nil, syscall.ENOENT
	}
	s.settle()
	name = clean(name)
	if s.dirs[name] {
		return &handle{s: s, inc: inc, name: name, isDir: true}, nil
	}
	if !s.dirs[path.Dir(name)] {
		return nil, syscall.ENOENT
	}
	i := s.dir[name]
	op := "open"
	if i == nil && flag&os.O_CREATE != 0 {
		op = "create"
	}
	if err := s.fault(op); err != nil {
		return nil, err
	}
	if i != nil && flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, syscall.EEXIST
	}
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		i = &inode{created: s.w.now(), createV: s.version(), mtime: s.w.now(), dirty: time.Time{}}
		s.dir[name] = i
		s.log = append(s.log, dirOp{s.w.now(), "link", name, "", i})
	}
	if flag&os.O_TRUNC != 0 && len(i.data) > 0 {
		i.data = nil
		i.created, i.createV = s.w.now(), s.version()
		// Truncation is a metadata operation: it becomes durable like data.
		i.touch(s)
		i.dur = nil
	}
	s.w.logf("%s open %s flag=%x", inc.host, name, flag)
	return &handle{s: s, inc: inc, i: i, name: name, app: flag&os.O_APPEND != 0, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0}, nil
}

func (i *inode) touch(s *simFS) {
	i.mtime = s.w.now()
	if i.dirty.IsZero() {
		i.dirty = s.w.now()
	}
}

func (h *handle) Read(b []byte) (int, error) {
	dieIfDead(h.inc)
	if h.closed {
		return 0, fs.ErrClosed
	}
	if h.isDir {
		return 0, syscall.EISDIR
	}
	if !h.read {
		h.read = true
		if err := h.s.fault("read"); err != nil && err != errShort {
			return 0, err
		}
	}
	if h.off >= int64(len(h.i.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, h.i.data[h.off:])
	h.off += int64(n)
	return n, nil
}

func (h *handle) ReadAt(b []byte, off int64) (int, error) {
	dieIfDead(h.inc)
	if off >= int64(len(h.i.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.i.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *handle) Write(b []byte) (int, error) {
	forcePark(ptFS)
	if h.closed {
		return 0, fs.ErrClosed
	}
	if h.isDir || !h.wr {
		return 0, syscall.EBADF
	}
	err := h.s.fault("write")
	n := len(b)
	if err == errShort {
		n = n / 2
		err = syscall.ENOSPC
	} else if err != nil {
		n = 0
	}
	off := h.off
	if h.app {
		off = int64(len(h.i.data))
	}
	h.writeAt(b[:n], off)
	h.off = off + int64(n)
	forcePark(ptFSDone)
	return n, err
}

func (h *handle) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	for int64(len(h.i.data)) < off+int64(len(b)) {
		h.i.data = append(h.i.data, 0)
	}
	copy(h.i.data[off:], b)
	h.i.touch(h.s)
}

func (h *handle) WriteAt(b []byte, off int64) (int, error) {
	forcePark(ptFS)
	if err := h.s.fault("write"); err != nil {
		return 0, syscall.EIO
	}
	h.writeAt(b, off)
	return len(b), nil
}

func (h *handle) Seek(off int64, whence int) (int64, error) {
	dieIfDead(h.inc)
	switch whence {
	case io.SeekStart:
		h.off = off
	case io.SeekCurrent:
		h.off += off
	case io.SeekEnd:
		if h.i != nil {
			h.off = int64(len(h.i.data)) + off
		}
	}
	return h.off, nil
}

func (h *handle) Sync() error {
	forcePark(ptFS)
	if h.closed {
		return fs.ErrClosed
	}
	if err := h.s.fault("sync"); err != nil {
		return syscall.EIO
	}
	if h.isDir {
		for _, o := range h.s.log {
			h.s.applyDur(o)
		}
		h.s.log = nil
		return nil
	}
	h.i.dur = append([]byte(nil), h.i.data...)
	h.i.dirty = time.Time{}
	forcePark(ptFSDone)
	return nil
}

func (h *handle) Close() error {
	dieIfDead(h.inc)
	if h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	if h.isDir || !h.wr {
		return nil
	}
	forcePark(ptFS)
	if err := h.s.fault("close"); err != nil {
		// A deferred write error surfaces: the tail of the file is lost.
		if n := len(h.i.data); n > 0 && !h.i.dirty.IsZero() {
			h.i.data = h.i.data[:n/2]
			h.i.touch(h.s)
		}
		return syscall.EIO
	}
	return nil
}

func (h *handle) Truncate(n int64) error {
	forcePark(ptFS)
	if err := h.s.fault("truncate"); err != nil {
		return syscall.EIO
	}
	return truncIno(h.s, h.i, n)
}

func truncIno(s *simFS, i *inode, n int64) error {
	for int64(len(i.data)) < n {
		i.data = append(i.data, 0)
	}
	i.data = i.data[:n]
	if int64(len(i.dur)) > n {
		i.dur = i.dur[:n]
	}
	i.touch(s)
	return nil
}

type finfo struct {
	name string
	size int64
	dir  bool
	mt   time.Time
}

func (f finfo) Name() string { return f.name }
func (f finfo) Size() int64  { return f.size }
func (f finfo) Mode() fs.FileMode {
	if f.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (f finfo) ModTime() time.Time { return f.mt }
func (f finfo) IsDir() bool        { return f.dir }
func (f finfo) Sys() any           { return nil }

func (h *handle) Stat() (any, error) {
	dieIfDead(h.inc)
	if h.isDir {
		return finfo{name: path.Base(h.name), dir: true}, nil
	}
	return finfo{path.Base(h.name), int64(len(h.i.data)), false, h.i.mtime}, nil
}

func (h *handle) ReadDir() ([]any, error) {
	dieIfDead(h.inc)
	var names []string
	for n := range h.s.dir {
		if path.Dir(n) == h.name {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []any
	for _, n := range names {
		i := h.s.dir[n]
		out = append(out, fs.FileInfoToDirEntry(finfo{path.Base(n), int64(len(i.data)), false, i.mtime}))
	}
	return out, nil
}

func fsRename(a, b string) error {
	s, inc := fsPark()
	if s == nil {
		return syscall.ENOENT
	}
	a, b = clean(a), clean(b)
	if err := s.fault("rename"); err != nil {
		return syscall.EIO
	}
	i := s.dir[a]
	if i == nil || !s.dirs[path.Dir(b)] {
		return syscall.ENOENT
	}
	delete(s.dir, a)
	s.dir[b] = i
	s.log = append(s.log, dirOp{s.w.now(), "rename", a, b, i})
	s.w.logf("%s rename %s -> %s (%d bytes)", inc.host, a, b, len(i.data))
	if b == snapPath {
		s.saves = append(s.saves, saveRec{created: i.created, version: i.createV, done: s.w.now(), ino: i})
		s.w.count("save")
		s.w.probe("snapshot-saved")
	}
	forcePark(ptFSDone)
	return nil
}

func fsRemove(n string) error {
	s, _ := fsPark()
	if s == nil {
		return syscall.ENOENT
	}
	n = clean(n)
	if err := s.fault("remove"); err != nil {
		return syscall.EIO
	}
	if s.dir[n] == nil {
		return syscall.ENOENT
	}
	delete(s.dir, n)
	s.log = append(s.log, dirOp{s.w.now(), "unlink", n, "", nil})
	return nil
}

func installFSHooks() {
	verifhook.SimPath = func(n string) bool { return strings.HasPrefix(n, "/simfs/") || n == "/simfs" }
	verifhook.OpenFile = fsOpen
	verifhook.Rename = fsRename
	verifhook.Remove = fsRemove
	verifhook.RemoveAll = func(n string) error {
		err := fsRemove(n)
		if err == syscall.ENOENT {
			return nil
		}
		return err
	}
	verifhook.Link = func(a, b string) error {
		s, _ := fsPark()
		if s == nil {
			return syscall.ENOENT
		}
		a, b = clean(a), clean(b)
		if err := s.fault("link"); err != nil {
			return syscall.EIO
		}
		i := s.dir[a]
		if i == nil {
			return syscall.ENOENT
		}
		if s.dir[b] != nil {
			return syscall.EEXIST
		}
		s.dir[b] = i
		s.log = append(s.log, dirOp{s.w.now(), "link", b, "", i})
		return nil
	}
	verifhook.Mkdir = func(n string) error {
		s, _ := fsPark()
		if s == nil {
			return syscall.ENOENT
		}
		if s.dirs[clean(n)] {
			return syscall.EEXIST
		}
		s.dirs[clean(n)] = true
		return nil
	}
	verifhook.Truncate = func(n string, sz int64) error {
		s, _ := fsPark()
		if s == nil || s.dir[clean(n)] == nil {
			return syscall.ENOENT
		}
		return truncIno(s, s.dir[clean(n)], sz)
	}
	verifhook.Stat = func(n string) (any, error) {
		s, inc := fsOf()
		dieIfDead(inc)
		n = clean(n)
		if s == nil {
			return nil, syscall.ENOENT
		}
		if s.dirs[n] {
			return finfo{name: path.Base(n), dir: true}, nil
		}
		i := s.dir[n]
		if i == nil {
			return nil, syscall.ENOENT
		}
		return finfo{path.Base(n), int64(len(i.data)), false, i.mtime}, nil
	}
}
