package main

import (
	"errors"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"verifhook"
)

// simNet: reliable FIFO byte streams between named hosts with delays, resets,
// partitions and silent peers.
type simNet struct {
	w         *World
	listeners map[string]*listener
	nconn     int
	parts     map[string]time.Time // "a|b" -> until
	heal      time.Time
}

func newNet(w *World) *simNet {
	return &simNet{w: w, listeners: map[string]*listener{}, parts: map[string]time.Time{}}
}

func pairKey(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

func (n *simNet) partitioned(a, b string) (time.Time, bool) {
	t, ok := n.parts[pairKey(a, b)]
	if !ok || !t.After(n.w.now()) {
		return time.Time{}, false
	}
	return t, true
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type listener struct {
	inc    *Inc
	addr   string
	q      []*conn
	ch     chan struct{}
	closed bool
}

func hostOf(addr string) string {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return h
}

func (n *simNet) listen(inc *Inc, addr string) (*listener, error) {
	forcePark(ptListen)
	_, port, _ := net.SplitHostPort(addr)
	key := inc.host + ":" + port
	if l := n.listeners[key]; l != nil && !l.closed && !l.inc.dead {
		return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	l := &listener{inc: inc, addr: key, ch: make(chan struct{}, 1)}
	n.listeners[key] = l
	inc.listeners = append(inc.listeners, l)
	if inc.node >= 0 && inc.node < len(n.w.nodes) && n.w.nodes[inc.node].port() == 0 {
		n.w.violate(ps("C22"), "listens", "%s listens on %s although its API server is disabled", inc.host, key)
	}
	inc.up = true
	inc.upAt = n.w.now()
	n.w.logf("%s listening on %s", inc.host, key)
	if inc.node >= 0 && inc.node < len(n.w.nodes) {
		n.w.nodes[inc.node].onUp()
	}
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		dieIfDead(l.inc)
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		<-l.ch
	}
}

func (l *listener) Close() error {
	dieIfDead(l.inc)
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	select {
	case l.ch <- struct{}{}:
	default:
	}
	// Connections nobody accepted are reset.
	for _, c := range l.q {
		c.kill()
	}
	l.q = nil
	return nil
}

func (l *listener) Addr() net.Addr { return simAddr(l.addr) }

type segment struct {
	data []byte
	eof  bool
	rst  bool
	tag  uint64
	due  time.Time
}

type pipe struct {
	buf     []byte
	tags    []tagRange
	eof     bool
	rst     bool
	ch      chan struct{}
	q       []segment
	sched   bool
	next    *event // the delivery that is scheduled
	lastDue time.Time
	sink    func(p *pipe) // event-driven reader (fake servers)
}

type tagRange struct {
	n   int
	tag uint64
}

func (p *pipe) signal() {
	select {
	case p.ch <- struct{}{}:
	default:
	}
}

type conn struct {
	n       *simNet
	id      int
	inc     *Inc
	laddr   simAddr
	raddr   simAddr
	in, out *pipe
	peer    *conn
	closed  bool
	rd, wd  time.Time
	rdT     *time.Timer
	rgen    int
	silent  bool
	onClose func()
}

func newPipe() *pipe { return &pipe{ch: make(chan struct{}, 1)} }

func (n *simNet) pair(a, b *Inc, ah, bh string) (*conn, *conn) {
	p, q := newPipe(), newPipe()
	n.nconn++
	ca := &conn{n: n, id: n.nconn, inc: a, laddr: simAddr(ah), raddr: simAddr(bh), in: p, out: q}
	cb := &conn{n: n, id: n.nconn, inc: b, laddr: simAddr(bh), raddr: simAddr(ah), in: q, out: p}
	ca.peer, cb.peer = cb, ca
	a.conns = append(a.conns, ca)
	if b != nil {
		b.conns = append(b.conns, cb)
	}
	return ca, cb
}

var errRefused = os.NewSyscallError("connect", syscall.ECONNREFUSED)
var errReset = os.NewSyscallError("read", syscall.ECONNRESET)
var errPipe = os.NewSyscallError("write", syscall.EPIPE)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (n *simNet) dial(inc *Inc, addr string) (*conn, error) {
	w := n.w
	inc.booting = false
	dieIfDead(inc)
	h := hostOf(addr)
	type res struct {
		c   *conn
		err error
	}
	ch := make(chan res, 1)
	tag := verifhook.GetTag()
	w.count("dial")
	at := w.now().Add(n.latency())
	if until, ok := n.partitioned(inc.host, h); ok {
		to := w.now().Add(3 * time.Second)
		if until.After(to) {
			w.injected["net-dial-timeout"]++
			w.at(to, tag, "dial timeout "+addr, func() { ch <- res{nil, timeoutErr{}} })
			r := <-ch
			dieIfDead(inc)
			return nil, r.err
		}
		at = until
	}
	w.at(at, tag, "connect "+inc.host+"->"+addr, func() {
		if w.mongo != nil && w.mongo.isHost(h) {
			if !w.mongo.acceptable(h) {
				ch <- res{nil, errRefused}
				return
			}
			ca, cb := n.pair(inc, w.mongo.inc, inc.host+":9", addr)
			w.mongo.accept(cb)
			ch <- res{ca, nil}
			return
		}
		l := n.listeners[addr]
		if l == nil || l.closed || l.inc.dead {
			w.injected["net-refused"]++
			ch <- res{nil, errRefused}
			return
		}
		ca, cb := n.pair(inc, l.inc, inc.host+":9", addr)
		l.q = append(l.q, cb)
		select {
		case l.ch <- struct{}{}:
		default:
		}
		ch <- res{ca, nil}
	})
	r := <-ch
	dieIfDead(inc)
	return r.c, r.err
}

// latency of the next network event, derived from the plan's network seed.
func (n *simNet) latency() time.Duration {
	w := n.w
	k := w.counts["lat"]
	w.counts["lat"]++
	j := w.plan.Net.JitterUS
	if w.healed {
		j = 0
	}
	d := time.Duration(w.plan.Net.BaseUS) * time.Microsecond
	if j > 0 {
		h := mix(w.plan.Net.Seed, uint64(k))
		if int(h%100) < w.plan.Net.JitterPct {
			d += time.Duration(mix(h)%uint64(j)) * time.Microsecond
		}
	}
	return d
}

func (c *conn) Read(b []byte) (int, error) {
	for {
		dieIfDead(c.inc)
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		if c.rdPassed() {
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		p := c.in
		if len(p.buf) > 0 {
			if len(b) == 0 {
				return 0, nil
			}
			m := copy(b, p.buf)
			p.buf = p.buf[m:]
			return m, nil
		}
		if p.rst {
			return 0, c.operr("read", errReset)
		}
		if p.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		<-p.ch
	}
}

func (c *conn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *conn) rdPassed() bool { return !c.rd.IsZero() && !c.n.w.now().Before(c.rd) }
func (c *conn) wdPassed() bool { return !c.wd.IsZero() && !c.n.w.now().Before(c.wd) }

func (c *conn) Write(b []byte) (int, error) {
	dieIfDead(c.inc)
	if c.closed {
		return 0, c.operr("write", net.ErrClosed)
	}
	if c.wdPassed() {
		return 0, c.operr("write", os.ErrDeadlineExceeded)
	}
	if c.in.rst || c.out.rst {
		return 0, c.operr("write", errPipe)
	}
	if len(b) == 0 {
		return 0, nil
	}
	d := make([]byte, len(b))
	copy(d, b)
	c.n.send(c, segment{data: d, tag: verifhook.GetTag()})
	return len(b), nil
}

// send queues a segment on c's outgoing pipe.
func (n *simNet) send(c *conn, s segment) {
	w := n.w
	d := n.latency()
	p := c.out
	split := false
	if s.data != nil {
		for _, f := range w.fire("seg") {
			switch f.K {
			case "net-delay":
				w.injected["net-delay"]++
				if cut := f.B * len(s.data) / 100; f.B > 0 && f.B < 100 && cut > 0 && cut < len(s.data) {
					// The first part arrives, the rest is late.
					w.injected["net-split"]++
					split = true
					w.splitDelay += time.Duration(f.A) * time.Millisecond
					due := w.now().Add(d)
					n.enqueue(p, segment{data: s.data[:cut], tag: s.tag, due: due})
					s.data = s.data[cut:]
					w.count("slowreq")
				}
				d += time.Duration(f.A) * time.Millisecond
			case "net-reset": // deliver a prefix, then reset both directions
				w.injected["net-reset"]++
				cut := int(f.A) * len(s.data) / 100
				if cut > 0 {
					n.enqueue(p, segment{data: s.data[:cut], tag: s.tag, due: w.now().Add(d)})
				}
				n.enqueue(p, segment{rst: true, tag: s.tag, due: w.now().Add(d)})
				n.enqueue(c.in, segment{rst: true, tag: s.tag, due: w.now().Add(d)})
				return
			case "net-eof": // the peer sees a clean half-close in mid message
				w.injected["net-eof"]++
				cut := int(f.A) * len(s.data) / 100
				if cut > 0 {
					n.enqueue(p, segment{data: s.data[:cut], tag: s.tag, due: w.now().Add(d)})
				}
				n.enqueue(p, segment{eof: true, tag: s.tag, due: w.now().Add(d)})
				n.enqueue(c.in, segment{rst: true, tag: s.tag, due: w.now().Add(d + time.Millisecond)})
				return
			case "net-silence": // everything from here on is lost
				w.injected["net-silence"]++
				c.silent = true
			}
		}
	}
	if c.silent && !w.healed {
		if split {
			w.splitUntil = w.now().Add(24 * time.Hour)
		}
		return
	}
	s.due = w.now().Add(d)
	if until, ok := n.partitioned(hostOf(string(c.laddr)), hostOf(string(c.raddr))); ok && until.After(s.due) {
		s.due = until
	}
	n.enqueue(p, s)
	if split && p.lastDue.After(w.splitUntil) {
		w.splitUntil = p.lastDue
	}
}

func (n *simNet) enqueue(p *pipe, s segment) {
	if s.due.Before(p.lastDue) {
		s.due = p.lastDue
	}
	p.lastDue = s.due
	p.q = append(p.q, s)
	n.pump(p)
}

func (n *simNet) pump(p *pipe) {
	if p.sched || len(p.q) == 0 {
		return
	}
	p.sched = true
	s := p.q[0]
	p.next = n.w.at(s.due, s.tag, "deliver", func() {
		p.sched = false
		p.q = p.q[1:]
		switch {
		case s.rst:
			p.rst = true
		case s.eof:
			p.eof = true
		default:
			if !p.rst && !p.eof {
				p.buf = append(p.buf, s.data...)
				p.tags = append(p.tags, tagRange{len(s.data), s.tag})
			}
		}
		if p.sink != nil {
			p.sink(p)
		} else {
			p.signal()
		}
		n.pump(p)
	})
}

func (c *conn) Close() error {
	dieIfDead(c.inc)
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.closed = true
	c.in.signal()
	c.n.send(c, segment{eof: true, tag: verifhook.GetTag()})
	// Data arriving from now on resets the peer's writes.
	c.n.w.after(c.n.latency(), verifhook.GetTag(), "closed", func() { c.peer.out.rst = true })
	return nil
}

// kill closes a connection from outside (its process died).
func (c *conn) kill() {
	if c.closed {
		return
	}
	c.closed = true
	n := c.n
	d := n.latency()
	n.enqueue(c.out, segment{rst: true, due: n.w.now().Add(d)})
	c.in.signal()
	n.w.after(d, 0, "reset", func() { c.peer.out.rst = true; c.peer.in.signal() })
}

// CloseWrite half-closes.
func (c *conn) CloseWrite() error {
	dieIfDead(c.inc)
	c.n.send(c, segment{eof: true, tag: verifhook.GetTag()})
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return c.laddr }
func (c *conn) RemoteAddr() net.Addr { return c.raddr }

func (c *conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *conn) SetReadDeadline(t time.Time) error {
	dieIfDead(c.inc)
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	c.rgen++
	if c.rdT != nil {
		c.rdT.Stop()
		c.rdT = nil
	}
	if t.IsZero() {
		c.rd = t
		return nil
	}
	d := time.Until(t)
	c.rd = c.n.w.now().Add(d)
	if d <= 0 {
		c.in.signal()
		return nil
	}
	g := c.rgen
	c.rdT = time.AfterFunc(d, func() {
		if g == c.rgen {
			c.in.signal()
		}
	})
	return nil
}

func (c *conn) SetWriteDeadline(t time.Time) error {
	dieIfDead(c.inc)
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	if t.IsZero() {
		c.wd = t
		return nil
	}
	c.wd = c.n.w.now().Add(time.Until(t))
	return nil
}

func (n *simNet) partition(a, b string, d time.Duration) {
	n.parts[pairKey(a, b)] = n.w.now().Add(d)
	n.w.injected["net-partition"]++
}

func (n *simNet) healAll() {
	n.parts = map[string]time.Time{}
	now := n.w.now()
	for _, in := range n.w.incs {
		for _, c := range in.conns {
			// What a partition holds back arrives now.
			for _, p := range []*pipe{c.in, c.out} {
				for i := range p.q {
					if p.q[i].due.After(now) {
						p.q[i].due = now
					}
				}
				if p.lastDue.After(now) {
					p.lastDue = now
				}
				if p.sched && p.next.at.After(now) {
					p.next.at = now
				}
			}
			if c.silent {
				// A silent connection never recovers; both ends learn of it.
				c.silent = false
				n.enqueue(c.out, segment{rst: true, due: n.w.now()})
				n.enqueue(c.in, segment{rst: true, due: n.w.now()})
			}
		}
	}
}

func installNetHooks() {
	verifhook.Dial = func(network, addr string) (any, error) {
		inc := curInc()
		if inc == nil {
			return nil, errors.New("verifsim: dial outside the simulation")
		}
		if strings.HasPrefix(network, "udp") {
			return nil, errors.New("verifsim: no udp")
		}
		c, err := W.net.dial(inc, addr)
		if err != nil {
			return nil, err
		}
		return net.Conn(c), nil
	}
	verifhook.Listen = func(network, addr string) (any, error) {
		inc := curInc()
		if inc == nil {
			return nil, errors.New("verifsim: listen outside the simulation")
		}
		l, err := W.net.listen(inc, addr)
		if err != nil {
			return nil, err
		}
		return net.Listener(l), nil
	}
}
