package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// Mongo models a MongoDB deployment speaking the wire protocol to the real
// driver. It is driven by events of the simulation: it has no goroutines, and
// every command is applied at one event (multi-document writes at one event per
// document).
type Mongo struct {
	w     *World
	host  string
	hosts []string
	inc   *Inc
	cfg   MongoCfg
	store *Store

	colls   map[string]*mcoll
	main    *mcoll
	retry   map[string]*retryRec
	cursors map[int64][]bson.D
	ncursor int64
	nconn   int32
	nrid    int
	dec     *bsonReg

	conns   []*mconn
	primary int // index of the primary, -1 while there is none
	term    int
	down    bool
	gen     int // outages so far

	everBad      bool
	bad          []interval // trouble of any kind
	downs        []interval // no server process
	cuts         []interval // cut off from all instances
	headless     []interval // no primary
	indexedAt    time.Time
	minRetention time.Duration
	maxRetention time.Duration
	ttlRan       time.Time // last pass of the TTL monitor
	cmds         map[string]int
	initBy       []*Inc
}

type interval struct{ from, to time.Time }

type bsonReg struct{ reg interface{} }

type mconn struct {
	c   *conn
	m   *Mongo
	h   int // host index
	buf []byte
}

type mdoc struct {
	rid int
	d   bson.D
}

type mindex struct {
	name    string
	keys    bson.D
	partial bson.D
	ttl     int64 // -1: none
	unique  bool
	ready   time.Time
}

type mcoll struct {
	m       *Mongo
	ns      string
	exists  bool
	docs    []*mdoc // by record id
	indexes []*mindex
	view    map[*mdoc]viewed
}

type viewed struct {
	d bson.D
	t *TaskV
}

type retryRec struct {
	stmts map[int]bson.D
	reply bson.D
	busy  bool
	wait  []func()
}

var taskRegistry = bson.NewRegistryBuilder().RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{})).Build()

func (w *World) addMongo(cfg MongoCfg) *Mongo {
	m := &Mongo{w: w, cfg: cfg, host: "m0", colls: map[string]*mcoll{}, retry: map[string]*retryRec{}, cursors: map[int64][]bson.D{}, cmds: map[string]int{}, minRetention: -1}
	m.hosts = []string{"m0"}
	if cfg.Mode == "replset" {
		m.hosts = []string{"m0", "m1", "m2"}
	}
	m.inc = w.newInc("mongo", "m0", -1)
	m.store = w.addStore("mongodb", nil)
	if cfg.TTLSec == 0 {
		m.cfg.TTLSec = 60
	}
	for _, n := range w.nodes {
		if n.cfg.Engine != "mongodb" || n.cfg.NoIndex {
			continue
		}
		r := n.retention() / time.Second * time.Second
		if m.minRetention < 0 || r < m.minRetention {
			m.minRetention = r
		}
		m.maxRetention = max(m.maxRetention, r)
	}
	if cfg.Shard != "" {
		// sh.shardCollection has been run by the operator.
		c := m.coll("ratus.tasks")
		c.create()
		c.indexes = append(c.indexes, &mindex{name: cfg.Shard + "_hashed", keys: bson.D{{Key: cfg.Shard, Value: "hashed"}}, ttl: -1})
	}
	m.armTTL()
	return m
}

func (m *Mongo) uri() string {
	switch m.cfg.Mode {
	case "replset":
		return "mongodb://m0:27017,m1:27017,m2:27017/?replicaSet=rs0"
	case "sharded":
		return "mongodb://m0:27017/"
	}
	return "mongodb://m0:27017/"
}

func (m *Mongo) isHost(h string) bool {
	for _, x := range m.hosts {
		if x == h {
			return true
		}
	}
	return false
}

func (m *Mongo) acceptable(h string) bool { return !m.down }

func (m *Mongo) accept(c *conn) {
	mc := &mconn{c: c, m: m}
	for i, h := range m.hosts {
		if h == hostOf(string(c.laddr)) {
			mc.h = i
		}
	}
	m.conns = append(m.conns, mc)
	c.in.sink = func(p *pipe) { mc.data(p) }
}

// ----------------------------------------------------------------- wire format

func (mc *mconn) data(p *pipe) {
	if p.rst || p.eof {
		mc.c.closed = true
	}
	for len(p.buf) >= 4 {
		n := int(binary.LittleEndian.Uint32(p.buf))
		if n < 16 || n > 48<<20 {
			mc.c.kill()
			return
		}
		if len(p.buf) < n {
			return
		}
		msg := append([]byte(nil), p.buf[:n]...)
		p.buf = p.buf[n:]
		var tag uint64
		for left := n; left > 0 && len(p.tags) > 0; {
			t := &p.tags[0]
			tag = t.tag
			k := min(left, t.n)
			t.n -= k
			left -= k
			if t.n == 0 {
				p.tags = p.tags[1:]
			}
		}
		mc.message(msg, tag)
	}
}

func (mc *mconn) message(msg []byte, tag uint64) {
	id := binary.LittleEndian.Uint32(msg[4:])
	switch op := binary.LittleEndian.Uint32(msg[12:]); op {
	case 2013:
		flags := binary.LittleEndian.Uint32(msg[16:])
		b := msg[20:]
		if flags&1 != 0 {
			b = b[:len(b)-4]
		}
		var cmd bson.D
		for len(b) > 0 {
			kind := b[0]
			b = b[1:]
			n := int(binary.LittleEndian.Uint32(b))
			if kind == 0 {
				must(bson.Unmarshal(b[:n], &cmd))
			} else {
				sec := b[4:n]
				i := strings.IndexByte(string(sec), 0)
				name := string(sec[:i])
				sec = sec[i+1:]
				var arr bson.A
				for len(sec) > 0 {
					k := int(binary.LittleEndian.Uint32(sec))
					var d bson.D
					must(bson.Unmarshal(sec[:k], &d))
					arr = append(arr, d)
					sec = sec[k:]
				}
				cmd = append(cmd, bson.E{Key: name, Value: arr})
			}
			b = b[n:]
		}
		mc.command(cmd, id, tag, false, flags&2 != 0)
	case 2004:
		b := msg[20:]
		i := strings.IndexByte(string(b), 0)
		b = b[i+1+8:]
		var cmd bson.D
		must(bson.Unmarshal(b[:binary.LittleEndian.Uint32(b)], &cmd))
		if q, ok := lookup(cmd, "$query"); ok {
			cmd = q.(bson.D)
		}
		mc.command(cmd, id, tag, true, false)
	default:
		must(fmt.Errorf("mongo model: opcode %d", op))
	}
}

func (mc *mconn) reply(d bson.D, id uint32, tag uint64, legacy bool) {
	if mc.c.closed {
		return
	}
	body, err := bson.Marshal(d)
	must(err)
	var b []byte
	u32 := func(x uint32) { b = binary.LittleEndian.AppendUint32(b, x) }
	if legacy {
		u32(uint32(36 + len(body)))
		u32(0)
		u32(id)
		u32(1)
		u32(8)
		u32(0)
		u32(0)
		u32(0)
		u32(1)
	} else {
		u32(uint32(21 + len(body)))
		u32(0)
		u32(id)
		u32(2013)
		u32(0)
		b = append(b, 0)
	}
	b = append(b, body...)
	mc.m.w.net.send(mc.c, segment{data: b, tag: tag})
}

// -------------------------------------------------------------------- commands

func errDoc(e *merr) bson.D {
	d := bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: e.msg}, {Key: "code", Value: int32(e.code)}, {Key: "codeName", Value: e.name}}
	if e.label != "" {
		d = append(d, bson.E{Key: "errorLabels", Value: bson.A{e.label}})
	}
	return d
}

func okDoc(es ...bson.E) bson.D { return append(bson.D(es), bson.E{Key: "ok", Value: 1.0}) }

var serverErrs = map[string]merr{
	"shutdown":    {91, "ShutdownInProgress", "The server is in quiesce mode and will shut down", "RetryableWriteError"},
	"notprimary":  {10107, "NotWritablePrimary", "not primary", "RetryableWriteError"},
	"stepdown":    {189, "PrimarySteppedDown", "Primary stepped down while waiting for replication", "RetryableWriteError"},
	"interrupted": {11601, "Interrupted", "operation was interrupted", ""},
	"maxtime":     {50, "MaxTimeMSExpired", "operation exceeded time limit", ""},
	"unreachable": {6, "HostUnreachable", "Couldn't get a connection within the time limit", "RetryableWriteError"},
	"unauth":      {13, "Unauthorized", "command requires authentication", ""},
	"notfound":    {133, "FailedToSatisfyReadPreference", "Could not find host matching read preference { mode: \"primary\" }", "RetryableWriteError"},
	"memory":      {146, "ExceededMemoryLimit", "Exceeded memory limit", ""},
}

func (m *Mongo) hello(mc *mconn) bson.D {
	now := primitive.NewDateTimeFromTime(m.w.now())
	d := bson.D{{Key: "helloOk", Value: true}}
	prim := true
	switch m.cfg.Mode {
	case "replset":
		prim = m.primary == mc.h
		hosts := bson.A{}
		for _, h := range m.hosts {
			hosts = append(hosts, h+":27017")
		}
		d = append(d, bson.E{Key: "setName", Value: "rs0"}, bson.E{Key: "setVersion", Value: int32(1)}, bson.E{Key: "hosts", Value: hosts},
			bson.E{Key: "secondary", Value: !prim}, bson.E{Key: "me", Value: m.hosts[mc.h] + ":27017"})
		if m.primary >= 0 {
			d = append(d, bson.E{Key: "primary", Value: m.hosts[m.primary] + ":27017"})
		}
		if prim {
			var oid primitive.ObjectID
			binary.BigEndian.PutUint32(oid[8:], uint32(m.term+1))
			d = append(d, bson.E{Key: "electionId", Value: oid})
		}
		d = append(d, bson.E{Key: "lastWrite", Value: bson.D{{Key: "lastWriteDate", Value: now}}})
	case "sharded":
		d = append(d, bson.E{Key: "msg", Value: "isdbgrid"})
	}
	m.nconn++
	d = append(d, bson.E{Key: "ismaster", Value: prim}, bson.E{Key: "isWritablePrimary", Value: prim}, bson.E{Key: "maxBsonObjectSize", Value: int32(16777216)},
		bson.E{Key: "maxMessageSizeBytes", Value: int32(48000000)}, bson.E{Key: "maxWriteBatchSize", Value: int32(100000)}, bson.E{Key: "localTime", Value: now},
		bson.E{Key: "logicalSessionTimeoutMinutes", Value: int32(30)}, bson.E{Key: "connectionId", Value: m.nconn}, bson.E{Key: "minWireVersion", Value: int32(0)},
		bson.E{Key: "maxWireVersion", Value: int32(9)}, bson.E{Key: "readOnly", Value: false})
	return okDoc(d...)
}

var reads = map[string]bool{"find": true, "aggregate": true, "count": true, "distinct": true, "getMore": true, "listIndexes": true, "ping": true, "listCollections": true, "killCursors": true, "endSessions": true, "buildInfo": true}

func (mc *mconn) command(cmd bson.D, id uint32, tag uint64, legacy, more bool) {
	m := mc.m
	w := m.w
	name := cmd[0].Key
	m.cmds[name]++
	answer := func(d bson.D) {
		if !more {
			mc.reply(d, id, tag, legacy)
		}
	}
	switch strings.ToLower(name) {
	case "ismaster", "hello":
		w.after(20*time.Microsecond, tag, "mongo hello", func() { answer(m.hello(mc)) })
		return
	case "endsessions", "killcursors":
		answer(okDoc())
		return
	}
	// Faults.
	var delay, after time.Duration
	var fail *merr
	var failAfter int
	drop, dropAfter, wce := false, false, false
	fs := w.fire("mongo")
	for _, k := range []string{"documents", "updates", "deletes"} {
		if v, ok := lookup(cmd, k); ok {
			if a, ok := v.(bson.A); ok && len(a) > 1 {
				fs = append(fs, w.fire("mongobulk")...)
			}
		}
	}
	for _, f := range fs {
		m.trouble(0)
		switch f.K {
		case "mongo-delay":
			w.injected["mongo-delay"]++
			delay += time.Duration(f.A) * time.Millisecond
			after += time.Duration(f.B) * time.Millisecond
			m.trouble(delay + after)
		case "mongo-err":
			e := serverErrs[f.S]
			if m.cfg.Mode == "" || m.cfg.Mode == "standalone" {
				e.label = ""
			}
			w.injected["mongo-err-"+f.S]++
			fail, failAfter = &e, f.A
			wce = f.B == 1
		case "mongo-werr": // single statements of a bulk write fail, as when one shard is unreachable
			w.injected["mongo-werr"]++
			fail, failAfter = &merr{6, "HostUnreachable", "no such shard host", ""}, -1-f.A%255
		case "mongo-drop":
			w.injected["mongo-drop"]++
			drop = true
		case "mongo-dropafter":
			w.injected["mongo-dropafter"]++
			dropAfter = true
		}
	}
	if drop {
		mc.c.kill()
		return
	}
	if d := m.cfg.ServUS; d > 0 {
		delay += time.Duration(mix(w.plan.Net.Seed, uint64(w.counts["mongo"]), 77)%uint64(d)) * time.Microsecond
	}
	gen := m.gen
	w.after(delay+20*time.Microsecond, tag, "mongo "+name, func() {
		if m.gen != gen && m.down {
			return // the server died with the command
		}
		if m.cfg.Mode == "replset" && m.primary != mc.h && name != "ping" {
			e := serverErrs["notprimary"]
			if reads[name] {
				e.code, e.name, e.label = 13435, "NotPrimaryNoSecondaryOk", ""
			}
			answer(errDoc(&e))
			return
		}
		if fail != nil && !wce && failAfter == 0 {
			answer(errDoc(fail))
			return
		}
		m.exec(mc, name, cmd, tag, failAfter, fail, func(d bson.D) {
			if wce && fail != nil {
				if v, ok := lookup(d, "ok"); ok && v == 1.0 {
					d = append(d, bson.E{Key: "writeConcernError", Value: bson.D{{Key: "code", Value: int32(64)}, {Key: "codeName", Value: "WriteConcernFailed"}, {Key: "errmsg", Value: "waiting for replication timed out"}}})
				}
			}
			if dropAfter || mc.c.closed {
				if !mc.c.closed {
					mc.c.kill()
				}
				return
			}
			if after > 0 {
				w.after(after, tag, "mongo reply", func() { answer(d) })
				return
			}
			answer(d)
		})
	})
}

func str(d bson.D, k string) string {
	v, _ := lookup(d, k)
	s, _ := v.(string)
	return s
}

func doc(d bson.D, k string) bson.D {
	v, _ := lookup(d, k)
	s, _ := v.(bson.D)
	return s
}

func arr(d bson.D, k string) bson.A {
	v, _ := lookup(d, k)
	s, _ := v.(bson.A)
	return s
}

func boolOf(d bson.D, k string, def bool) bool {
	v, ok := lookup(d, k)
	if !ok {
		return def
	}
	if b, ok := v.(bool); ok {
		return b
	}
	n, _ := num(v)
	return n != 0
}

func intOf(d bson.D, k string) int {
	v, _ := lookup(d, k)
	n, _ := num(v)
	return int(n)
}

func (m *Mongo) coll(ns string) *mcoll {
	c := m.colls[ns]
	if c == nil {
		c = &mcoll{m: m, ns: ns, view: map[*mdoc]viewed{}}
		m.colls[ns] = c
		if ns == "ratus.tasks" {
			m.main = c
		}
	}
	return c
}

func (c *mcoll) create() {
	if !c.exists {
		c.exists = true
		c.indexes = append(c.indexes, &mindex{name: "_id_", keys: bson.D{{Key: "_id", Value: int32(1)}}, ttl: -1})
	}
}

func (m *Mongo) exec(mc *mconn, name string, cmd bson.D, tag uint64, failAfter int, fail *merr, done func(bson.D)) {
	w := m.w
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			w.note = "the MongoDB model does not support " + string(u)
			w.injected["mongo-unsupported"]++
			w.abort = true
			done(errDoc(&merr{238, "NotImplemented", string(u), ""}))
		}
	}()
	db := str(cmd, "$db")
	target, _ := cmd[0].Value.(string)
	c := m.coll(db + "." + target)
	now := w.now()
	switch name {
	case "ping":
		done(okDoc())
	case "buildInfo", "buildinfo":
		done(okDoc(bson.E{Key: "version", Value: "4.4.29"}, bson.E{Key: "versionArray", Value: bson.A{int32(4), int32(4), int32(29), int32(0)}}))
	case "find":
		docs, e := c.find(cmd, "filter")
		if e != nil {
			done(errDoc(e))
			return
		}
		done(m.cursor(c.ns, docs, intOf(cmd, "batchSize"), boolOf(cmd, "singleBatch", false)))
	case "getMore":
		id, _ := cmd[0].Value.(int64)
		docs, ok := m.cursors[id]
		if !ok {
			done(errDoc(&merr{43, "CursorNotFound", "cursor id not found", ""}))
			return
		}
		delete(m.cursors, id)
		n := intOf(cmd, "batchSize")
		if n == 0 {
			n = len(docs)
		}
		n = min(n, len(docs))
		next := int64(0)
		if n < len(docs) {
			m.cursors[id] = docs[n:]
			next = id
		}
		done(okDoc(bson.E{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: toA(docs[:n])}, {Key: "id", Value: next}, {Key: "ns", Value: str(cmd, "$db") + "." + str(cmd, "collection")}}}))
	case "aggregate":
		p := arr(cmd, "pipeline")
		var f bson.D
		if len(p) > 0 {
			if s, ok := p[0].(bson.D); ok && s[0].Key == "$match" {
				f, _ = s[0].Value.(bson.D)
			}
		}
		ds, e := c.scan(f, hintOf(cmd), nil)
		if e == nil {
			var docs []bson.D
			for _, d := range ds {
				docs = append(docs, d.d)
			}
			docs, e = aggregate(docs, p, now)
			if e == nil {
				bs := 0
				if cd := doc(cmd, "cursor"); cd != nil {
					bs = intOf(cd, "batchSize")
				}
				done(m.cursor(c.ns, docs, bs, false))
				return
			}
		}
		done(errDoc(e))
	case "count":
		docs, e := c.find(cmd, "query")
		if e != nil {
			done(errDoc(e))
			return
		}
		done(okDoc(bson.E{Key: "n", Value: int32(len(docs))}))
	case "distinct":
		docs, e := c.find(cmd, "query")
		if e != nil {
			done(errDoc(e))
			return
		}
		out := bson.A{}
		for _, d := range docs {
			v, ok := getPath(d, str(cmd, "key"))
			dup := !ok
			for _, x := range out {
				dup = dup || cmpV(x, v) == 0
			}
			if !dup {
				out = append(out, v)
			}
		}
		sort.SliceStable(out, func(i, j int) bool { return cmpV(out[i], out[j]) < 0 })
		done(okDoc(bson.E{Key: "values", Value: out}))
	case "listIndexes":
		if !c.exists {
			done(errDoc(&merr{26, "NamespaceNotFound", "ns does not exist: " + c.ns, ""}))
			return
		}
		var out []bson.D
		for _, x := range c.indexes {
			d := bson.D{{Key: "v", Value: int32(2)}, {Key: "key", Value: x.keys}, {Key: "name", Value: x.name}}
			if x.partial != nil {
				d = append(d, bson.E{Key: "partialFilterExpression", Value: x.partial})
			}
			if x.ttl >= 0 {
				d = append(d, bson.E{Key: "expireAfterSeconds", Value: x.ttl})
			}
			out = append(out, d)
		}
		done(m.cursor(c.ns, out, 0, false))
	case "create":
		c.create()
		done(okDoc())
	case "createIndexes":
		m.createIndexes(c, cmd, tag, done)
	case "dropIndexes":
		n := str(cmd, "index")
		for i, x := range c.indexes {
			if x.name == n {
				c.indexes = append(c.indexes[:i:i], c.indexes[i+1:]...)
				done(okDoc())
				return
			}
		}
		done(errDoc(&merr{27, "IndexNotFound", "index not found with name [" + n + "]", ""}))
	case "collMod":
		if !c.exists {
			done(errDoc(&merr{26, "NamespaceNotFound", "ns does not exist", ""}))
			return
		}
		spec := doc(cmd, "index")
		for _, x := range c.indexes {
			if (str(spec, "name") != "" && x.name == str(spec, "name")) || (doc(spec, "keyPattern") != nil && sameD(x.keys, doc(spec, "keyPattern"))) {
				old := x.ttl
				r := []bson.E{}
				if v, ok := lookup(spec, "expireAfterSeconds"); ok {
					n, isNum := num(v)
					if !isNum {
						done(errDoc(&merr{14, "TypeMismatch", "expireAfterSeconds must be a number", ""}))
						return
					}
					if old < 0 {
						done(errDoc(&merr{72, "InvalidOptions", "no expireAfterSeconds field to update", ""}))
						return
					}
					x.ttl = int64(n)
					r = append(r, bson.E{Key: "expireAfterSeconds_old", Value: old}, bson.E{Key: "expireAfterSeconds_new", Value: x.ttl})
				}
				w.probe("mongo-collmod")
				done(okDoc(r...))
				return
			}
		}
		done(errDoc(&merr{27, "IndexNotFound", "cannot find index for ns " + c.ns, ""}))
	case "drop":
		if !c.exists {
			done(errDoc(&merr{26, "NamespaceNotFound", "ns not found", ""}))
			return
		}
		c.docs, c.exists, c.indexes = nil, false, nil
		c.changed(tag)
		done(okDoc())
	case "findAndModify", "findandmodify":
		rec, ok := m.retryOf(cmd, func() { m.exec(mc, name, cmd, tag, failAfter, fail, done) }, done)
		if ok {
			return
		}
		d := m.findAndModify(c, cmd, tag)
		if rec != nil {
			rec.busy, rec.reply = false, d
		}
		done(d)
	case "insert", "update", "delete":
		rec, ok := m.retryOf(cmd, func() { m.exec(mc, name, cmd, tag, failAfter, fail, done) }, done)
		if ok {
			return
		}
		m.write(c, name, cmd, tag, rec, failAfter, fail, done)
	default:
		panic(unsupported("command " + name))
	}
}

// retryOf finds the record of a retryable write; done is called if the command
// has been executed before.
func (m *Mongo) retryOf(cmd bson.D, again func(), done func(bson.D)) (*retryRec, bool) {
	txn, ok := lookup(cmd, "txnNumber")
	if !ok {
		return nil, false
	}
	if m.cfg.Mode == "" || m.cfg.Mode == "standalone" {
		done(errDoc(&merr{20, "IllegalOperation", "Transaction numbers are only allowed on a replica set member or mongos", ""}))
		return nil, true
	}
	key := fmt.Sprintf("%v|%v", doc(cmd, "lsid"), txn)
	r := m.retry[key]
	if r == nil {
		r = &retryRec{stmts: map[int]bson.D{}}
		m.retry[key] = r
	}
	if r.reply != nil {
		m.w.probe("mongo-retried-write")
		done(r.reply)
		return nil, true
	}
	if r.busy {
		r.wait = append(r.wait, again)
		return nil, true
	}
	r.busy = true
	return r, false
}

func toA(ds []bson.D) bson.A {
	a := bson.A{}
	for _, d := range ds {
		a = append(a, d)
	}
	return a
}

func (m *Mongo) cursor(ns string, docs []bson.D, batch int, single bool) bson.D {
	n := batch
	if n <= 0 {
		n = 101
	}
	n = min(n, len(docs))
	var id int64
	if n < len(docs) && !single {
		m.ncursor++
		id = m.ncursor
		m.cursors[id] = docs[n:]
		m.w.probe("mongo-getmore")
	}
	return okDoc(bson.E{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: toA(docs[:n])}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}})
}

func hintOf(cmd bson.D) any {
	v, _ := lookup(cmd, "hint")
	return v
}

func (c *mcoll) index(hint any) *mindex {
	for _, x := range c.indexes {
		switch h := hint.(type) {
		case string:
			if x.name == h {
				return x
			}
		case bson.D:
			if sameD(x.keys, h) {
				return x
			}
		}
	}
	return nil
}

// scan returns the documents matching f in the order of the plan.
func (c *mcoll) scan(f bson.D, hint any, by bson.D) ([]*mdoc, *merr) {
	if !c.exists {
		return nil, nil
	}
	if hint != nil {
		empty := false
		if d, ok := hint.(bson.D); ok && len(d) == 0 {
			empty = true
		}
		if s, ok := hint.(string); ok && s == "" {
			empty = true
		}
		if d, ok := hint.(bson.D); ok && len(d) > 0 && d[0].Key == "$natural" {
			empty = true
		}
		if !empty {
			x := c.index(hint)
			if x == nil {
				return nil, badValue("error processing query: planner returned error :: caused by :: hint provided does not correspond to an existing index")
			}
			if x.partial != nil && !implies(f, x.partial) {
				return nil, &merr{291, "NoQueryExecutionPlans", "error processing query: planner returned error :: caused by :: No query solutions", ""}
			}
		}
	}
	var out []*mdoc
	for _, d := range c.docs {
		if match(d.d, f) {
			out = append(out, d)
		}
	}
	if len(by) > 0 {
		sort.SliceStable(out, func(i, j int) bool {
			for _, e := range by {
				a, _ := getPath(out[i].d, e.Key)
				b, _ := getPath(out[j].d, e.Key)
				k := cmpV(a, b)
				if n, _ := num(e.Value); n < 0 {
					k = -k
				}
				if k != 0 {
					return k < 0
				}
			}
			return false
		})
	}
	return out, nil
}

func (c *mcoll) find(cmd bson.D, fkey string) ([]bson.D, *merr) {
	ds, e := c.scan(doc(cmd, fkey), hintOf(cmd), doc(cmd, "sort"))
	if e != nil {
		return nil, e
	}
	skip, limit := intOf(cmd, "skip"), intOf(cmd, "limit")
	if skip < 0 {
		return nil, &merr{51024, "Location51024", "BSON field 'skip' value must be >= 0", ""}
	}
	ds = ds[min(skip, len(ds)):]
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 {
		ds = ds[:min(limit, len(ds))]
	}
	p := doc(cmd, "projection")
	var out []bson.D
	for _, d := range ds {
		out = append(out, project(d.d, p))
	}
	return out, nil
}

// ---------------------------------------------------------------------- writes

// changed publishes the collection's new state as a version of the store.
func (c *mcoll) changed(tag uint64) {
	m := c.m
	if c != m.main {
		return
	}
	w := m.w
	st := make(State, len(c.docs))
	for _, d := range c.docs {
		id, _ := lookup(d.d, "_id")
		key, ok := id.(string)
		if !ok {
			key = fmt.Sprint(id)
		}
		st[key] = c.taskOf(d)
	}
	var inc *Inc
	if i := int(tag >> 32); i < len(w.incs) {
		inc = w.incs[i]
	}
	kind := ""
	if inc == m.inc {
		kind = "ttl"
	}
	v := m.store.observe(st, int(uint32(tag)), inc, kind)
	if kind == "ttl" && len(v.changes) == 0 {
		return
	}
	w.orc.committedVer(m.store, v)
	w.count("commit")
}

func (c *mcoll) taskOf(d *mdoc) *TaskV {
	if v, ok := c.view[d]; ok && len(v.d) == len(d.d) && (len(v.d) == 0 || &v.d[0] == &d.d[0]) {
		return v.t
	}
	b, err := bson.Marshal(d.d)
	must(err)
	var t ratus.Task
	if err := bson.UnmarshalWithRegistry(taskRegistry, b, &t); err != nil {
		c.m.w.violate(ps("C06", "C19"), "document", "a stored document is not a task: %v: %v", err, d.d)
	}
	tv := viewOf(&t)
	c.view[d] = viewed{d.d, tv}
	return tv
}

func (c *mcoll) byID(id any) *mdoc {
	for _, d := range c.docs {
		if v, _ := lookup(d.d, "_id"); typeRank(v) == typeRank(id) && cmpV(v, id) == 0 {
			return d
		}
	}
	return nil
}

func (c *mcoll) remove(x *mdoc) {
	for i, d := range c.docs {
		if d == x {
			c.docs = append(c.docs[:i:i], c.docs[i+1:]...)
			delete(c.view, d)
			return
		}
	}
}

func (c *mcoll) insertDoc(d bson.D) *merr {
	id, ok := lookup(d, "_id")
	if !ok {
		var oid primitive.ObjectID
		binary.BigEndian.PutUint32(oid[8:], uint32(c.m.nrid+1))
		id = oid
		d = append(bson.D{{Key: "_id", Value: oid}}, d...)
	}
	c.create()
	if c.byID(id) != nil {
		return &merr{11000, "DuplicateKey", fmt.Sprintf("E11000 duplicate key error collection: %s index: _id_ dup key: { _id: \"%v\" }", c.ns, id), ""}
	}
	c.m.nrid++
	c.docs = append(c.docs, &mdoc{c.m.nrid, d})
	return nil
}

func (m *Mongo) shardKey(c *mcoll) string {
	if c == m.main {
		return m.cfg.Shard
	}
	return ""
}

// modify applies an update to one document.
func (m *Mongo) modify(c *mcoll, x *mdoc, u any, f bson.D, multi bool) (changed bool, e *merr) {
	nd, e := applyUpdate(x.d, u, false, f, m.w.now())
	if e != nil {
		return false, e
	}
	if sk := m.shardKey(c); sk != "" {
		a, _ := getPath(x.d, sk)
		b, _ := getPath(nd, sk)
		if cmpV(a, b) != 0 {
			if multi {
				return false, &merr{72, "InvalidOptions", "Multi-update operations are not allowed when updating the shard key field.", ""}
			}
			if _, ok := equalityOn(f, sk); !ok {
				m.w.probe("mongo-shard-key-changed")
				return false, &merr{31025, "Location31025", "Shard key update is not allowed without specifying the full shard key in the query", ""}
			}
		}
	}
	if sameD(x.d, nd) {
		return false, nil
	}
	x.d = nd
	return true, nil
}

func (m *Mongo) upsertDoc(c *mcoll, f bson.D, u any) (any, *merr) {
	base := bson.D{}
	var add func(f bson.D)
	add = func(f bson.D) {
		for _, e := range f {
			if e.Key == "$and" {
				for _, x := range e.Value.(bson.A) {
					add(x.(bson.D))
				}
				continue
			}
			if strings.HasPrefix(e.Key, "$") {
				continue
			}
			if v, ok := equalityOn(bson.D{e}, e.Key); ok {
				base = setPath(base, e.Key, v)
			}
		}
	}
	add(f)
	if d, ok := u.(bson.D); ok && (len(d) == 0 || !strings.HasPrefix(d[0].Key, "$")) {
		id, has := lookup(base, "_id")
		base = bson.D{}
		if has {
			base = bson.D{{Key: "_id", Value: id}}
		}
	}
	nd, e := applyUpdate(base, u, true, f, m.w.now())
	if e != nil {
		return nil, e
	}
	if e := c.insertDoc(nd); e != nil {
		return nil, e
	}
	id, _ := lookup(c.docs[len(c.docs)-1].d, "_id")
	return id, nil
}

func (m *Mongo) findAndModify(c *mcoll, cmd bson.D, tag uint64) bson.D {
	f := doc(cmd, "query")
	if sk := m.shardKey(c); sk != "" && !m.cfg.V7 {
		if _, ok := equalityOn(f, sk); !ok {
			m.w.probe("mongo-shard-key-missing")
			return errDoc(&merr{61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key", ""})
		}
	}
	ds, e := c.scan(f, hintOf(cmd), doc(cmd, "sort"))
	if e != nil {
		return errDoc(e)
	}
	leo := func(n int, upd bool) bson.E {
		return bson.E{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(n)}, {Key: "updatedExisting", Value: upd}}}
	}
	p := doc(cmd, "fields")
	u, hasU := lookup(cmd, "update")
	if len(ds) == 0 {
		if boolOf(cmd, "upsert", false) && hasU {
			id, e := m.upsertDoc(c, f, u)
			if e != nil {
				return errDoc(e)
			}
			c.changed(tag)
			var v any
			if boolOf(cmd, "new", false) {
				v = project(c.byID(id).d, p)
			}
			return okDoc(bson.E{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(1)}, {Key: "updatedExisting", Value: false}, {Key: "upserted", Value: id}}}, bson.E{Key: "value", Value: v})
		}
		return okDoc(leo(0, false), bson.E{Key: "value", Value: nil})
	}
	x := ds[0]
	before := x.d
	if boolOf(cmd, "remove", false) {
		c.remove(x)
		c.changed(tag)
		return okDoc(leo(1, false), bson.E{Key: "value", Value: project(before, p)})
	}
	if _, e := m.modify(c, x, u, f, false); e != nil {
		return errDoc(e)
	}
	c.changed(tag)
	v := before
	if boolOf(cmd, "new", false) {
		v = x.d
	}
	return okDoc(leo(1, true), bson.E{Key: "value", Value: project(v, p)})
}

// write runs an insert, update or delete command, one document per step.
func (m *Mongo) write(c *mcoll, name string, cmd bson.D, tag uint64, rec *retryRec, failAfter int, fail *merr, done func(bson.D)) {
	w := m.w
	ordered := boolOf(cmd, "ordered", true)
	key := map[string]string{"insert": "documents", "update": "updates", "delete": "deletes"}[name]
	stmts := arr(cmd, key)
	var n, nMod int
	var ups, errs bson.A
	finish := func(d bson.D) {
		if rec != nil {
			rec.busy, rec.reply = false, d
			if v, _ := lookup(d, "ok"); v != 1.0 {
				rec.reply = nil
			}
			for _, f := range rec.wait {
				w.after(0, tag, "mongo retry", f)
			}
			rec.wait = nil
		}
		done(d)
	}
	result := func() bson.D {
		r := []bson.E{{Key: "n", Value: int32(n)}}
		if name == "update" {
			r = append(r, bson.E{Key: "nModified", Value: int32(nMod)})
		}
		if len(ups) > 0 {
			r = append(r, bson.E{Key: "upserted", Value: ups})
		}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		return okDoc(r...)
	}
	werr := func(i int, e *merr) {
		d := bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(e.code)}, {Key: "errmsg", Value: e.msg}}
		if e.code == 11000 {
			id, _ := lookup(stmts[i].(bson.D), "_id")
			d = append(d, bson.E{Key: "keyPattern", Value: bson.D{{Key: "_id", Value: int32(1)}}}, bson.E{Key: "keyValue", Value: bson.D{{Key: "_id", Value: id}}})
		}
		errs = append(errs, d)
	}
	type step func() // one document
	var queue []step
	steps := 0
	i := -1
	var next func()
	more := func() {
		steps++
		if !m.cfg.Multi {
			return
		}
	}
	gen := m.gen
	next = func() {
		for {
			if m.gen != gen {
				if m.cfg.Mode == "replset" && !m.down {
					e := serverErrs["stepdown"]
					finish(errDoc(&e))
				}
				return
			}
			if fail != nil && failAfter > 0 && steps >= failAfter {
				finish(errDoc(fail))
				return
			}
			for len(queue) > 0 {
				s := queue[0]
				queue = queue[1:]
				s()
				more()
				if m.cfg.Multi {
					w.probe("mongo-multi-step")
					w.after(time.Duration(20+mix(w.plan.Net.Seed, uint64(steps), 5)%uint64(1+m.cfg.ServUS))*time.Microsecond, tag, "mongo step", next)
					return
				}
				if fail != nil && failAfter > 0 && steps >= failAfter {
					finish(errDoc(fail))
					return
				}
			}
			i++
			if i >= len(stmts) || (ordered && len(errs) > 0) {
				finish(result())
				return
			}
			st := stmts[i].(bson.D)
			k := i
			if rec != nil {
				if r, ok := rec.stmts[k]; ok { // executed by an earlier attempt
					n += intOf(r, "n")
					nMod += intOf(r, "nModified")
					if id, ok := lookup(r, "upserted"); ok {
						ups = append(ups, bson.D{{Key: "index", Value: int32(k)}, {Key: "_id", Value: id}})
					}
					w.probe("mongo-retried-statement")
					continue
				}
			}
			note := func(es ...bson.E) {
				if rec != nil {
					rec.stmts[k] = bson.D(es)
				}
			}
			sk := m.shardKey(c)
			if fail != nil && failAfter < 0 && (-failAfter)>>(k%8)&1 == 1 {
				werr(k, fail)
				continue
			}
			switch name {
			case "insert":
				queue = append(queue, func() {
					if e := c.insertDoc(st); e != nil {
						werr(k, e)
						return
					}
					n++
					note(bson.E{Key: "n", Value: int32(1)})
					c.changed(tag)
				})
			case "delete":
				f := doc(st, "q")
				if intOf(st, "limit") == 1 {
					if sk != "" && !m.cfg.V7 {
						_, a := equalityOn(f, sk)
						_, b := equalityOn(f, "_id")
						if !a && !b {
							werr(k, &merr{61, "ShardKeyNotFound", "delete with limit 1 must contain the shard key or _id", ""})
							continue
						}
					}
					queue = append(queue, func() {
						ds, e := c.scan(f, hintOf(st), nil)
						if e != nil {
							werr(k, e)
							return
						}
						if len(ds) > 0 {
							c.remove(ds[0])
							n++
							note(bson.E{Key: "n", Value: int32(1)})
						} else {
							note(bson.E{Key: "n", Value: int32(0)})
						}
						c.changed(tag)
					})
					continue
				}
				ds, e := c.scan(f, hintOf(st), nil)
				if e != nil {
					werr(k, e)
					continue
				}
				if len(ds) == 0 {
					c.changed(tag)
				}
				for _, x := range ds {
					queue = append(queue, func() {
						if c.byRID(x.rid) != nil && match(x.d, f) {
							c.remove(x)
							n++
							c.changed(tag)
						}
					})
				}
			case "update":
				f := doc(st, "q")
				u, _ := lookup(st, "u")
				multi, upsert := boolOf(st, "multi", false), boolOf(st, "upsert", false)
				if sk != "" && !multi && !m.cfg.V7 {
					_, a := equalityOn(f, sk)
					_, b := equalityOn(f, "_id")
					if upsert && !a {
						w.probe("mongo-shard-key-missing")
						werr(k, &merr{61, "ShardKeyNotFound", "Failed to target upsert by query :: could not extract exact shard key", ""})
						continue
					}
					if !a && !b {
						werr(k, &merr{61, "ShardKeyNotFound", "A single update on a sharded collection must contain an exact match on _id or the shard key", ""})
						continue
					}
				}
				if multi {
					if d, ok := u.(bson.D); ok && (len(d) == 0 || !strings.HasPrefix(d[0].Key, "$")) {
						werr(k, &merr{9, "FailedToParse", "multi update is not supported for replacement-style update", ""})
						continue
					}
					ds, e := c.scan(f, hintOf(st), nil)
					if e != nil {
						werr(k, e)
						continue
					}
					if len(ds) == 0 && !upsert {
						c.changed(tag)
						continue
					}
					for _, x := range ds {
						queue = append(queue, func() {
							if c.byRID(x.rid) == nil || !match(x.d, f) {
								return
							}
							ch, e := m.modify(c, x, u, f, true)
							if e != nil {
								werr(k, e)
								return
							}
							n++
							if ch {
								nMod++
								c.changed(tag)
							}
						})
					}
					if len(ds) > 0 {
						continue
					}
				}
				queue = append(queue, func() {
					ds, e := c.scan(f, hintOf(st), nil)
					if e != nil {
						werr(k, e)
						return
					}
					if len(ds) == 0 {
						if !upsert {
							c.changed(tag)
							note(bson.E{Key: "n", Value: int32(0)})
							return
						}
						id, e := m.upsertDoc(c, f, u)
						if e != nil {
							werr(k, e)
							return
						}
						n++
						ups = append(ups, bson.D{{Key: "index", Value: int32(k)}, {Key: "_id", Value: id}})
						note(bson.E{Key: "n", Value: int32(1)}, bson.E{Key: "upserted", Value: id})
						c.changed(tag)
						return
					}
					ch, e := m.modify(c, ds[0], u, f, false)
					if e != nil {
						werr(k, e)
						return
					}
					n++
					if ch {
						nMod++
					}
					note(bson.E{Key: "n", Value: int32(1)}, bson.E{Key: "nModified", Value: int32(map[bool]int{true: 1}[ch])})
					c.changed(tag)
				})
			}
		}
	}
	next()
}

func (c *mcoll) byRID(rid int) *mdoc {
	for _, d := range c.docs {
		if d.rid == rid {
			return d
		}
	}
	return nil
}

// --------------------------------------------------------------------- indexes

func (m *Mongo) createIndexes(c *mcoll, cmd bson.D, tag uint64, done func(bson.D)) {
	w := m.w
	if by := tag >> 32; int(by) < len(w.incs) {
		m.initBy = append(m.initBy, w.incs[by])
	}
	before := len(c.indexes)
	var add []*mindex
	for _, s := range arr(cmd, "indexes") {
		sp := s.(bson.D)
		x := &mindex{name: str(sp, "name"), keys: doc(sp, "key"), partial: doc(sp, "partialFilterExpression"), ttl: -1, unique: boolOf(sp, "unique", false)}
		if v, ok := lookup(sp, "expireAfterSeconds"); ok {
			n, _ := num(v)
			if n < 0 {
				done(errDoc(&merr{67, "CannotCreateIndex", "TTL index 'expireAfterSeconds' option must be within an acceptable range", ""}))
				return
			}
			x.ttl = int64(n)
		}
		if x.name == "" || len(x.keys) == 0 {
			done(errDoc(&merr{9, "FailedToParse", "The 'name' and 'key' fields are required", ""}))
			return
		}
		if x.unique {
			panic(unsupported("unique indexes"))
		}
		known := false
		for _, y := range append(append([]*mindex(nil), c.indexes...), add...) {
			same := sameD(x.keys, y.keys) && sameD(x.partial, y.partial)
			switch {
			case x.name == y.name && same && x.ttl == y.ttl:
				known = true
			case x.name == y.name && sameD(x.keys, y.keys):
				done(errDoc(&merr{85, "IndexOptionsConflict", "An equivalent index already exists with the same name but different options. Requested index: " + x.name, ""}))
				return
			case x.name == y.name:
				done(errDoc(&merr{86, "IndexKeySpecsConflict", "An existing index has the same name as the requested index but different keys: " + x.name, ""}))
				return
			case sameD(x.keys, y.keys):
				done(errDoc(&merr{85, "IndexOptionsConflict", "Index already exists with a different name: " + y.name, ""}))
				return
			}
		}
		if !known {
			add = append(add, x)
		}
	}
	// A build takes a while; equal builds of others wait for it, and so see its result.
	build := time.Duration(0)
	for _, x := range add {
		_ = x
		build += time.Duration(50+mix(w.plan.Net.Seed, uint64(m.nrid), uint64(len(c.indexes)))%uint64(1+m.cfg.ServUS)) * time.Microsecond
	}
	for _, x := range c.indexes {
		if x.ready.After(w.now()) {
			build = max(build, x.ready.Sub(w.now()))
		}
	}
	c.create()
	for _, x := range add {
		x.ready = w.now().Add(build)
		c.indexes = append(c.indexes, x)
		if m.indexedAt.IsZero() && m.indexed() {
			m.indexedAt = x.ready
		}
	}
	after := len(c.indexes)
	w.after(build, tag, "mongo index", func() {
		done(okDoc(bson.E{Key: "numIndexesBefore", Value: int32(before)}, bson.E{Key: "numIndexesAfter", Value: int32(after)}))
	})
}

var documentedIndexes = []struct {
	keys    bson.D
	partial bson.D
	ttl     bool
}{
	{bson.D{{Key: "topic", Value: "hashed"}}, nil, false},
	{bson.D{{Key: "topic", Value: int32(1)}, {Key: "scheduled", Value: int32(1)}}, bson.D{{Key: "state", Value: int32(0)}}, false},
	{bson.D{{Key: "deadline", Value: int32(1)}}, bson.D{{Key: "state", Value: int32(1)}}, false},
	{bson.D{{Key: "topic", Value: int32(1)}}, bson.D{{Key: "state", Value: int32(1)}}, false},
	{bson.D{{Key: "consumed", Value: int32(1)}}, bson.D{{Key: "state", Value: int32(2)}}, true},
}

// checkIndexes judges the indexes at a quiet moment.
func (m *Mongo) checkIndexes() {
	w := m.w
	any := false
	var last time.Time
	for _, in := range w.incs {
		if in.kind == "node" && in.up && w.nodes[in.node].cfg.Engine == "mongodb" && !w.nodes[in.node].cfg.NoIndex {
			any = true
			if in.started.After(last) {
				last = in.started
			}
		}
	}
	if !any || m.main == nil {
		return
	}
	// Retentions of instances whose start-up overlapped or followed that of the last one.
	ok := map[int64]bool{}
	for _, in := range w.incs {
		if in.kind != "node" || w.nodes[in.node].cfg.Engine != "mongodb" || w.nodes[in.node].cfg.NoIndex {
			continue
		}
		end := in.upAt
		if !in.up {
			end = w.now()
		}
		if !end.Before(last) {
			ok[int64(w.nodes[in.node].retention()/time.Second)] = true
		}
	}
	w.orc.eval("C23")
	for _, want := range documentedIndexes {
		var got *mindex
		for _, x := range m.main.indexes {
			if sameD(x.keys, want.keys) && sameD(x.partial, want.partial) {
				got = x
			}
		}
		if got == nil {
			w.violate(ps("C23", "C19"), "index-missing", "no index %v with filter %v after initialisation (have %s)", want.keys, want.partial, m.main.indexNames())
			continue
		}
		if want.ttl && got.ttl < 0 {
			w.violate(ps("C23", "C11"), "index-ttl", "the expiry index has no retention")
		} else if want.ttl && !ok[got.ttl] {
			w.violate(ps("C23", "C11"), "index-ttl", "the expiry index keeps completed tasks for %d s; the instances that initialised last ask for %v", got.ttl, keysOf(ok))
		}
		if !want.ttl && got.ttl >= 0 {
			w.violate(ps("C23", "C11", "C06"), "index-ttl", "index %v expires documents after %d s", want.keys, got.ttl)
		}
	}
	for _, x := range m.main.indexes {
		if x.ttl >= 0 && !(sameD(x.keys, bson.D{{Key: "consumed", Value: int32(1)}}) && sameD(x.partial, bson.D{{Key: "state", Value: int32(2)}})) {
			w.violate(ps("C23", "C11", "C06"), "index-ttl", "undocumented expiry index %s on %v with filter %v", x.name, x.keys, x.partial)
		}
	}
}

func keysOf(m map[int64]bool) (out []int64) {
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func (c *mcoll) indexNames() string {
	var out []string
	for _, x := range c.indexes {
		out = append(out, x.name)
	}
	return strings.Join(out, ",")
}

// armTTL runs the TTL monitor.
func (m *Mongo) armTTL() {
	w := m.w
	w.after(time.Duration(m.cfg.TTLSec)*time.Second, 0, "mongo ttl", func() {
		if w.stop {
			return
		}
		if !m.down && m.primary >= 0 {
			m.ttlRan = w.now()
			for _, c := range m.collList() {
				for _, x := range append([]*mindex(nil), c.indexes...) {
					if x.ttl < 0 || len(x.keys) != 1 {
						continue
					}
					lim := w.now().Add(-time.Duration(x.ttl) * time.Second)
					for _, d := range append([]*mdoc(nil), c.docs...) {
						v, _ := getPath(d.d, x.keys[0].Key)
						t, ok := v.(primitive.DateTime)
						if ok && match(d.d, x.partial) && !t.Time().After(lim) {
							c.remove(d)
							w.probe("mongo-ttl-delete")
							c.changed(mkTag(m.inc, 0))
						}
					}
				}
			}
		}
		m.armTTL()
	})
}

func (m *Mongo) collList() (out []*mcoll) {
	for _, c := range m.colls {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ns < out[j].ns })
	return
}

// --------------------------------------------------------------------- trouble

// trouble notes that the database misbehaves for d.
func (m *Mongo) trouble(d time.Duration) {
	m.everBad = true
	n := m.w.now()
	m.bad = append(m.bad, interval{n, n.Add(d)})
}

func (m *Mongo) outage(d time.Duration, kind string) {
	w := m.w
	if w.healed {
		return
	}
	if kind == "part" {
		w.injected["mongo-partition"]++
		m.trouble(d)
		m.cuts = append(m.cuts, interval{w.now(), w.now().Add(d)})
		for _, n := range w.nodes {
			for _, h := range m.hosts {
				w.net.parts[pairKey(h, n.host)] = w.now().Add(d)
			}
		}
		return
	}
	if m.down {
		return
	}
	w.injected["mongo-down"]++
	m.trouble(d)
	m.down = true
	m.gen++
	g := m.gen
	m.downs = append(m.downs, interval{w.now(), time.Time{}})
	for _, c := range m.conns {
		c.c.kill()
	}
	m.conns = nil
	for _, r := range m.retry {
		r.busy, r.wait = false, nil
	}
	m.cursors = map[int64][]bson.D{}
	w.after(d, 0, "mongo up", func() {
		if m.gen == g {
			m.up()
		}
	})
}

func (m *Mongo) up() {
	if !m.down {
		return
	}
	m.down = false
	m.downs[len(m.downs)-1].to = m.w.now()
	m.bad[len(m.bad)-1].to = m.w.now()
	if m.primary < 0 {
		m.elect()
	}
}

func (m *Mongo) elect() {
	m.term++
	for i := range m.headless {
		if m.headless[i].to.IsZero() {
			m.headless[i].to = m.w.now()
		}
	}
	m.primary = m.term % len(m.hosts)
	m.w.logf("mongo: %s is primary", m.hosts[m.primary])
}

func (m *Mongo) failover(d time.Duration) {
	w := m.w
	if m.cfg.Mode != "replset" {
		m.outage(d, "")
		return
	}
	if m.down || m.primary < 0 || w.healed {
		return
	}
	w.injected["mongo-failover"]++
	m.trouble(d + time.Second)
	m.gen++
	m.primary = -1
	m.headless = append(m.headless, interval{w.now(), time.Time{}})
	t := m.term
	w.after(d, 0, "mongo election", func() {
		if m.primary < 0 && m.term == t {
			m.elect()
		}
	})
}

// badSince: the database had trouble at t or later.
func (m *Mongo) badSince(t time.Time) bool {
	for _, l := range [][]interval{m.bad, m.downs, m.cuts, m.headless} {
		for _, i := range l {
			if i.to.IsZero() || !i.to.Before(t) {
				return true
			}
		}
	}
	return false
}

// unreachableThroughout: no server answered at any moment from a to b.
func (m *Mongo) unreachableThroughout(a, b time.Time) bool {
	for _, l := range [][]interval{m.downs, m.cuts} {
		for _, i := range l {
			if !i.from.After(a) && (i.to.IsZero() || i.to.After(b)) {
				return true
			}
		}
	}
	for _, i := range m.headless {
		// The driver learns from its next heartbeat that a server is no longer primary.
		if !i.from.Add(15*time.Second).After(a) && (i.to.IsZero() || i.to.After(b)) {
			return true
		}
	}
	return false
}

func (m *Mongo) heal() {
	for i := range m.cuts {
		if m.cuts[i].to.After(m.w.now()) {
			m.cuts[i].to = m.w.now()
		}
	}
	m.up()
	if m.primary < 0 {
		m.elect()
	}
}

// indexed: the indexes the engine refers to exist.
func (m *Mongo) indexed() bool {
	if m.main == nil {
		return false
	}
	for _, want := range documentedIndexes {
		ok := false
		for _, x := range m.main.indexes {
			ok = ok || (sameD(x.keys, want.keys) && sameD(x.partial, want.partial))
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkExpired judges a completed task that is still there at a quiet moment.
func (m *Mongo) checkExpired(t *TaskV) {
	if m.main == nil || m.maxRetention == 0 {
		return
	}
	ready := time.Time{}
	for _, n := range m.w.nodes {
		if n.cfg.Engine == "mongodb" && !n.cfg.NoIndex && n.alive() && n.inc.up {
			if ready.IsZero() || n.inc.upAt.Before(ready) {
				ready = n.inc.upAt
			}
		}
	}
	// A pass of the monitor after it expired and after there was an index.
	since := ready.Add(2 * time.Second)
	if x := t.Consumed.Add(m.maxRetention + 2*time.Second); x.After(since) {
		since = x
	}
	if c := m.store.lastChange(t.ID); c.After(since) {
		since = c
	}
	if d := m.w.now().Sub(*t.Consumed); !ready.IsZero() && m.ttlRan.After(since) {
		m.w.violate(ps("C11", "C23", "C19"), "never-expired", "a completed task is still there %v after it was claimed (retention %v): %s", d, m.maxRetention, t)
	}
}
