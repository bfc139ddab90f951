package main

import (
	"fmt"
	"strings"
	"time"
)

type diskWindow struct{ from, to time.Time }

// restored judges the content a process starts with.
func (k *Oracle) restored(n *Node, s *Store, st State, inc *Inc) {
	w := k.w
	v := s.observe(st, 0, inc, "restore")
	push := func() {
		s.push(v)
		n.boots = append(n.boots, bootRec{w.now(), v.n})
	}
	if n.starts == 1 {
		if len(st) > 0 {
			k.w.violate(ps("C12", "C14"), "restored-nothing", "%s started for the first time and found %s", n.host, diffState(State{}, st))
		}
		push()
		return
	}
	if n.cfg.SnapMS == 0 {
		push()
		return
	}
	end := n.lastEnd
	if n.diskFaults() > 0 {
		k.eval("C15")
	}
	if end.kind == "exit" && end.code == 0 {
		k.eval("C13", "C14", "C12")
		if !eqState(s.versions[end.ver].state, st) {
			p := ps("C13")
			x, y := s.versions[end.ver].state, st
			if sameIDs(x, y) {
				p = ps("C14", "C13", "C06")
			}
			if n.diskFaults() > 0 {
				p = append(p, "C15")
			}
			k.w.violate(p, "restart-differs", "%s stopped gracefully at version %d but restarted with different contents: %s", n.host, end.ver, diffState(x, y))
		}
		w.probe("restored-after-exit")
		push()
		return
	}
	// Crash (or failed shutdown).
	k.eval("C12")
	power := end.kind == "power"
	bad := n.badTime(end.at)
	lim := time.Duration(n.cfg.SnapMS)*time.Millisecond + n.chore() + 2*time.Second + n.stallTotal + bad + end.shut
	if power {
		lim += dirFlush
	}
	oldest := end.at.Add(-lim)
	base := 0
	var booted time.Time
	if len(n.boots) > 0 {
		base = n.boots[len(n.boots)-1].ver
		booted = n.boots[len(n.boots)-1].at
	}
	// Until the first background job of the process nothing newer than what
	// it was started with can be expected.
	young := end.at.Sub(booted) < n.initialDelay()+n.chore()+2*time.Second+n.stallTotal+bad+end.shut
	if n.cfg.ChoreMS == 0 && !n.cfg.DefaultChore {
		young = true // no background jobs, no periodic snapshots
	}
	if power && end.at.Sub(booted) < n.initialDelay()+n.chore()+2*time.Second+n.stallTotal+bad+end.shut+dirFlush {
		young = true
	}
	first, found, old := 0, -1, -1
	if !power {
		first = base
	}
	for i := end.ver; i >= first; i-- {
		x := s.versions[i]
		if !eqState(x.state, st) {
			continue
		}
		till := end.at
		if i < end.ver {
			till = s.versions[i+1].at
		}
		ok := !till.Before(oldest)
		if young && (i == base || (power && i <= base)) {
			ok = true
		}
		if ok {
			found = i
			break
		}
		if old < 0 {
			old = i
		}
	}
	p := ps("C12")
	if n.diskFaults() > 0 {
		p = append(p, "C15")
	}
	switch {
	case found >= 0:
		w.probe("restored-after-" + end.kind)
		if found < end.ver {
			w.probe("restored-older-state")
		}
		if found > base && len(st) > 0 {
			w.probe("restored-newer-snapshot")
		}
	case old >= 0:
		x := s.versions[old]
		k.w.violate(p, "restored-too-old", "%s restarted after a %s at %s with version %d, which was replaced at %s, more than %v before (snapshot interval %dms, background jobs every %v); %d tasks, newest lost %s",
			n.host, end.kind, fmtT(&end.at), old, fmtT(&s.versions[old+1].at), lim, n.cfg.SnapMS, n.chore(), len(st), x.at.Sub(w.start))
	default:
		best, bd := end.ver, 1<<30
		for i := end.ver; i >= first; i-- {
			if d := distance(s.versions[i].state, st); d < bd {
				best, bd = i, d
			}
		}
		if sameIDs(s.versions[best].state, st) {
			p = append(p, "C14")
		}
		k.w.violate(p, "restored-mixed", "%s restarted after a %s with contents it never had; closest version %d: %s", n.host, end.kind, best, diffState(s.versions[best].state, st))
	}
	push()
}

func sameIDs(a, b State) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if b[k] == nil {
			return false
		}
	}
	return true
}

func distance(a, b State) (d int) {
	for k, x := range a {
		if y := b[k]; y == nil {
			d += 3
		} else if !eqTask(x, y) {
			d++
		}
	}
	for k := range b {
		if a[k] == nil {
			d += 3
		}
	}
	return
}

// diskFaults counts disk faults on the machine so far.
func (n *Node) diskFaults() int { return n.fs.nfaults }

// badTime is by how much disk faults may have delayed a snapshot.
func (n *Node) badTime(end time.Time) (d time.Duration) {
	for _, x := range n.diskWindows {
		to := x.to
		if to.After(end) {
			to = end
		}
		if to.After(x.from) {
			d += to.Sub(x.from) + n.chore()
		}
	}
	return d + time.Duration(n.fs.inline)*n.chore()
}

// diskTroubleSince reports whether a disk fault happened at or after t.
func (n *Node) diskTroubleSince(t time.Time) bool {
	if !n.fs.lastFault.IsZero() && !n.fs.lastFault.Before(t) {
		return true
	}
	return false
}

// onExit judges the end of a process.
func (k *Oracle) onExit(n *Node, inc *Inc, code int) {
	w := k.w
	disk := n.diskTroubleSince(inc.started)
	switch {
	case inc.panicked:
		w.violate(ps("C22", "C20", "C18", "C06", "C13"), "crashed", "%s crashed: %s", n.host, inc.lastLog)
		if n.restartAfterExit == 0 {
			n.restartAfterExit = time.Second + 1
		}
	case inc.signalled:
		k.eval("C13")
		late := n.diskTroubleSince(inc.sigAt)
		if late {
			k.eval("C15")
		}
		if code != 0 && !late && (w.mongo == nil || !w.mongo.everBad) {
			w.violate(ps("C13", "C22"), "exit-status", "%s exited with status %d after a termination signal", n.host, code)
		}
		if code == 0 {
			w.probe("graceful-exit")
		}
		if n := len(inc.inflight); n > 0 && code == 0 {
			for id := range inc.inflight {
				if s := w.opOf(id); s != nil && !s.canceled {
					w.violate(ps("C13", "C20"), "exit-with-requests", "%s exited while %d requests were being processed, such as op%d %s", inc.host, n, id, reqStr(s.req))
					break
				}
			}
		}
	case !inc.up && n.port() > 0:
		// The program refused to start.
		if w.mongo != nil && n.cfg.Engine == "mongodb" {
			k.eval("C23")
			if !w.mongo.badSince(inc.started.Add(-45*time.Second)) && !k.netTrouble(&OpRec{invAt: inc.started}) {
				w.violate(ps("C23", "C24"), "start-failed", "%s failed to start although the database is reachable (status %d)", n.host, code)
			}
			if code == 0 {
				w.violate(ps("C23"), "start-status", "%s ended with status 0 without serving", n.host)
			}
			w.probe("start-failed-cleanly")
		} else {
			if !disk {
				w.violate(ps("C12", "C14", "C15"), "start-failed", "%s failed to start (status %d): %s", n.host, code, inc.lastLog)
			}
		}
		if n.restartAfterExit == 0 {
			n.restartAfterExit = time.Second + 1
		}
	default:
		p := ps("C22", "C20")
		if disk {
			p = append(p, "C15")
		}
		w.violate(p, "ended-by-itself", "%s ended by itself with status %d: %s", n.host, code, inc.lastLog)
		if n.restartAfterExit == 0 {
			n.restartAfterExit = time.Second + 1
		}
	}
}

// shutdownOverdue reports processes that do not end after a signal.
func (k *Oracle) shutdownOverdue() {
	w := k.w
	for _, n := range w.nodes {
		inc := n.inc
		if inc == nil || inc.dead || !inc.signalled || inc.hung {
			continue
		}
		from := inc.sigAt
		for _, o := range w.ops {
			if o == nil {
				continue
			}
			for _, s := range o.serves {
				if s.inc == inc {
					if !s.ended {
						from = w.now()
					} else if s.end.After(from) {
						from = s.end
					}
				}
			}
		}
		if inc.stall.After(from) {
			from = inc.stall
		}
		if w.splitUntil.After(from) {
			from = w.splitUntil // a request that has arrived in part
		}
		if d := w.now().Sub(from); d > 30*time.Second {
			inc.hung = true
			w.violate(ps("C13", "C22"), "never-exits", "%s has not exited %v after a termination signal although no request is being processed", n.host, d)
		}
	}
}

func join(xs []string) string { return strings.Join(xs, ",") }

var _ = fmt.Sprint

// noteEnd records how a process ended, unless it never got to load its data.
func (n *Node) noteEnd(kind string, code int) {
	s := n.store
	if s == nil || s.engine != "memdb" {
		return
	}
	if s.dbInc != n.inc {
		if kind == "power" && n.lastEnd.kind != "" {
			n.lastEnd.kind = "power"
		}
		return
	}
	n.lastEnd = endRec{at: n.w.now(), kind: kind, code: code, ver: s.head()}
	if n.inc.signalled {
		n.lastEnd.shut = n.w.now().Sub(n.inc.sigAt)
	}
}
