package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"verifhook"

	"github.com/hashicorp/go-memdb"

	"github.com/hyperonym/ratus"
)

// TaskV is the value of a task as the reference model sees it.
type TaskV struct {
	ID, Topic                               string
	State                                   int32
	Nonce, Producer, Consumer               string
	Produced, Scheduled, Consumed, Deadline *time.Time
	Payload                                 string // canonical JSON, "" if absent
}

func tp(t *time.Time) *time.Time {
	if t == nil {
		return nil
	}
	u := t.Round(0).UTC()
	return &u
}

func canonical(v any) string {
	if v == nil {
		return ""
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	var x any
	d := json.NewDecoder(strings.NewReader(string(b)))
	if err := d.Decode(&x); err != nil {
		return "!" + err.Error()
	}
	b, _ = json.Marshal(x)
	if string(b) == "null" {
		return ""
	}
	if len(b) > 4096 {
		h := sha256.Sum256(b)
		return fmt.Sprintf("%s…%d:%x", b[:40], len(b), h[:12])
	}
	return string(b)
}

func viewOf(t *ratus.Task) *TaskV {
	return &TaskV{t.ID, t.Topic, int32(t.State), t.Nonce, t.Producer, t.Consumer,
		tp(t.Produced), tp(t.Scheduled), tp(t.Consumed), tp(t.Deadline), canonical(t.Payload)}
}

func fmtT(t *time.Time) string {
	if t == nil {
		return "-"
	}
	if W != nil {
		d := t.Sub(W.start)
		if d > -1000*time.Hour && d < 1000*time.Hour {
			return d.String()
		}
	}
	return t.Format(time.RFC3339Nano)
}

func (t *TaskV) String() string {
	if t == nil {
		return "<none>"
	}
	p := t.Payload
	if len(p) > 60 {
		p = p[:60] + "…"
	}
	return fmt.Sprintf("{id=%q topic=%q state=%d nonce=%q prod=%q cons=%q produced=%s sched=%s consumed=%s deadline=%s payload=%s}",
		t.ID, t.Topic, t.State, t.Nonce, t.Producer, t.Consumer, fmtT(t.Produced), fmtT(t.Scheduled), fmtT(t.Consumed), fmtT(t.Deadline), p)
}

func eqT(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equal(*b)
}

// floorTo floors a time to the store's precision.
func floorTo(t *time.Time, prec time.Duration) *time.Time {
	if t == nil || prec <= 1 {
		return t
	}
	ns := t.Nanosecond()
	u := t.Add(-time.Duration(ns % int(prec)))
	return &u
}

func eqTP(a, b *time.Time, prec time.Duration) bool { return eqT(floorTo(a, prec), floorTo(b, prec)) }

// diffFields lists the fields in which two tasks differ.
func diffFields(a, b *TaskV) []string {
	var d []string
	add := func(c bool, n string) {
		if c {
			d = append(d, n)
		}
	}
	add(a.ID != b.ID, "id")
	add(a.Topic != b.Topic, "topic")
	add(a.State != b.State, "state")
	add(a.Nonce != b.Nonce, "nonce")
	add(a.Producer != b.Producer, "producer")
	add(a.Consumer != b.Consumer, "consumer")
	add(!eqT(a.Produced, b.Produced), "produced")
	add(!eqT(a.Scheduled, b.Scheduled), "scheduled")
	add(!eqT(a.Consumed, b.Consumed), "consumed")
	add(!eqT(a.Deadline, b.Deadline), "deadline")
	add(a.Payload != b.Payload, "payload")
	return d
}

func eqTask(a, b *TaskV) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a == b {
		return true
	}
	return len(diffFields(a, b)) == 0
}

func without(fs []string, drop ...string) []string {
	var o []string
outer:
	for _, f := range fs {
		for _, d := range drop {
			if f == d {
				continue outer
			}
		}
		o = append(o, f)
	}
	return o
}

type State map[string]*TaskV

func (s State) clone() State {
	c := make(State, len(s))
	for k, v := range s {
		c[k] = v
	}
	return c
}

func (s State) ids() []string {
	var o []string
	for k := range s {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func eqState(a, b State) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !eqTask(v, b[k]) {
			return false
		}
	}
	return true
}

func diffState(a, b State) string {
	var o []string
	for _, k := range a.ids() {
		if b[k] == nil {
			o = append(o, "missing "+a[k].String())
		} else if !eqTask(a[k], b[k]) {
			o = append(o, fmt.Sprintf("%v: %s vs %s", diffFields(a[k], b[k]), a[k], b[k]))
		}
	}
	for _, k := range b.ids() {
		if a[k] == nil {
			o = append(o, "extra "+b[k].String())
		}
	}
	if len(o) > 4 {
		o = append(o[:4], "…")
	}
	return strings.Join(o, "; ")
}

type Change struct {
	id            string
	before, after *TaskV
}

func (c Change) String() string { return fmt.Sprintf("%s => %s", c.before, c.after) }

// Ver is one version of a store.
type Ver struct {
	n       int
	seq     uint64
	at      time.Time
	state   State
	op      int // 0: background
	inc     *Inc
	kind    string // "", "restore", "crash", "ttl"
	changes []Change
}

// Store is one logical task store: a MemDB node's memory or a MongoDB collection.
type Store struct {
	w         *World
	engine    string
	node      *Node // memdb
	prec      time.Duration
	versions  []*Ver
	nonces    map[string]int // nonce -> version that created it
	db        any
	dbInc     *Inc
	txnAt     map[uint64]time.Time
	restoring bool
	dirty     bool
	view      map[*ratus.Task]*TaskV
}

func (w *World) addStore(engine string, n *Node) *Store {
	s := &Store{w: w, engine: engine, node: n, prec: 1, nonces: map[string]int{}, txnAt: map[uint64]time.Time{}}
	if engine == "mongodb" {
		s.prec = time.Millisecond
	}
	s.versions = append(s.versions, &Ver{state: State{}, at: w.now(), kind: "init"})
	w.stores = append(w.stores, s)
	return s
}

func (s *Store) head() int    { return len(s.versions) - 1 }
func (s *Store) cur() *Ver    { return s.versions[len(s.versions)-1] }
func (s *Store) state() State { return s.cur().state }

func (s *Store) observe(st State, op int, inc *Inc, kind string) *Ver {
	old := s.state()
	v := &Ver{n: len(s.versions), seq: s.w.ev(), at: s.w.now(), state: st, op: op, inc: inc, kind: kind}
	var ids []string
	for id, b := range old {
		if a, ok := st[id]; !ok || !eqTask(a, b) {
			ids = append(ids, id)
		}
	}
	for id := range st {
		if _, ok := old[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		v.changes = append(v.changes, Change{id, old[id], st[id]})
	}
	return v
}

func (s *Store) push(v *Ver) {
	s.versions = append(s.versions, v)
	for _, c := range v.changes {
		if c.after != nil && c.after.Nonce != "" {
			if _, ok := s.nonces[c.after.Nonce]; !ok {
				s.nonces[c.after.Nonce] = v.n
			}
		}
	}
	if s.w.verbose {
		for _, c := range v.changes {
			s.w.logf("store v%d op=%d %s: %s", v.n, v.op, v.kind, c)
		}
	}
}

// ------------------------------------------------------------------- go-memdb

// taskTable finds the table holding *ratus.Task rows.
func dumpMem(db *memdb.MemDB) (State, error) {
	st := State{}
	txn := db.Txn(false)
	defer txn.Abort()
	found := false
	for name := range db.DBSchema().Tables {
		it, err := txn.Get(name, "id")
		if err != nil {
			return nil, err
		}
		found = true
		for r := it.Next(); r != nil; r = it.Next() {
			var t *ratus.Task
			switch x := r.(type) {
			case *ratus.Task:
				t = x
			case ratus.Task:
				t = &x
			default:
				v := reflect.Indirect(reflect.ValueOf(r))
				if v.Kind() == reflect.Struct {
					for i := 0; i < v.NumField(); i++ {
						if !v.Field(i).CanInterface() {
							continue
						}
						switch y := v.Field(i).Interface().(type) {
						case *ratus.Task:
							t = y
						case ratus.Task:
							t = &y
						}
					}
				}
			}
			if t == nil {
				return nil, fmt.Errorf("table %s holds %T", name, r)
			}
			st[t.ID] = viewOf(t)
		}
	}
	if !found {
		return nil, fmt.Errorf("no task table")
	}
	return st, nil
}

func memTxn(dbx any) {
	inc := curInc()
	if inc == nil || inc.store == nil {
		return
	}
	dieIfDead(inc)
	s := inc.store
	s.txnAt[verifhook.GetTag()] = s.w.now()
	if s.dbInc == inc && s.db == dbx {
		s.check(dbx.(*memdb.MemDB))
	}
}

// check compares the database with the model between transactions.
func (s *Store) check(db *memdb.MemDB) {
	st, err := dumpMem(db)
	must(err)
	if !eqState(st, s.state()) {
		s.w.orc.mutatedOutside(s, st)
	}
}

func memCommit(dbx any) {
	inc := curInc()
	if inc == nil || inc.store == nil {
		return
	}
	s := inc.store
	w := s.w
	st, err := dumpMem(dbx.(*memdb.MemDB))
	must(err)
	if s.dbInc != inc {
		// The first commit of a process restores the snapshot. A program that
		// has no snapshot starts empty.
		s.dbInc = inc
		s.db = dbx
		if !inc.up && curOp() == 0 {
			if !inc.booting && len(st) >= 0 && w.nodes[inc.node].cfg.SnapMS > 0 {
				w.orc.restored(w.nodes[inc.node], s, st, inc)
				return
			}
		}
		w.orc.restored(w.nodes[inc.node], s, State{}, inc)
	}
	s.db = dbx
	v := s.observe(st, curOp(), inc, "")
	w.orc.committedVer(s, v)
	w.count("commit")
	if inc.dead {
		select {}
	}
}

func (s *Store) crashed(n *Node, inc *Inc) {
	s.w.logf("store of %s lost its memory at version %d", n.host, s.head())
}
