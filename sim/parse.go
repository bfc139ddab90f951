package main

import (
	"bufio"
	"encoding/json"
	"io"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
)

func newConnReader(r io.Reader) *bufio.Reader { return bufio.NewReader(r) }

// parseHTTP is the reference reading of a request by the documented API.
func parseHTTP(method, target string, body []byte, n *Node) *Req {
	bad := &Req{K: "bad", Expect: "bad"}
	path, query, _ := strings.Cut(target, "?")
	q, err := url.ParseQuery(query)
	if err != nil {
		return &Req{K: "any"}
	}
	path = strings.TrimPrefix(path, "/v1")
	seg := strings.Split(strings.TrimPrefix(path, "/"), "/")
	for i := range seg {
		x, err := url.PathUnescape(seg[i])
		if err != nil {
			return &Req{K: "any"}
		}
		seg[i] = x
	}
	r := &Req{}
	get := func(i int) string {
		if i < len(seg) {
			return seg[i]
		}
		return ""
	}
	if get(0) != "topics" {
		switch get(0) {
		case "livez", "healthz":
			r.K = "live"
		case "readyz":
			r.K = "ready"
		case "metrics":
			r.K = "metrics"
		default:
			r.K = "404"
		}
		return r
	}
	page := func() bool {
		l, o := q.Get("limit"), q.Get("offset")
		r.NoLimit = l == "" && o == ""
		var e1, e2 error
		if l != "" {
			r.Limit, e1 = strconv.Atoi(l)
		}
		if o != "" {
			r.Offset, e2 = strconv.Atoi(o)
		}
		return e1 == nil && e2 == nil
	}
	r.Topic = get(1)
	switch len(seg) {
	case 1:
		switch method {
		case "GET":
			r.K = "topics"
			if !page() {
				return bad
			}
		case "DELETE":
			r.K = "deltopics"
		default:
			r.K = "any"
		}
		return r
	case 2:
		switch method {
		case "GET":
			r.K = "topic"
		case "DELETE":
			r.K = "deltopic"
		default:
			r.K = "any"
		}
		return r
	}
	r.ID = get(3)
	kind := get(2)
	if len(seg) > 4 || (kind != "tasks" && kind != "promises") {
		return &Req{K: "404"}
	}
	single := len(seg) == 4
	switch {
	case kind == "tasks" && !single:
		switch method {
		case "GET":
			r.K = "listt"
			if !page() {
				return bad
			}
			return r
		case "DELETE":
			r.K = "deltasks"
			return r
		case "POST", "PUT":
			r.K = map[string]string{"POST": "inserts", "PUT": "upserts"}[method]
			var ts ratus.Tasks
			if json.Unmarshal(body, &ts) != nil {
				return bad
			}
			for _, t := range ts.Data {
				in := taskIn(t, "", r.Topic)
				if in == nil {
					return bad
				}
				r.Tasks = append(r.Tasks, in)
			}
			return r
		}
	case kind == "tasks":
		switch method {
		case "GET":
			r.K = "get"
			return r
		case "DELETE":
			r.K = "delete"
			return r
		case "POST", "PUT":
			r.K = map[string]string{"POST": "insert", "PUT": "upsert"}[method]
			var t ratus.Task
			if json.Unmarshal(body, &t) != nil {
				return bad
			}
			in := taskIn(&t, r.ID, r.Topic)
			if in == nil {
				return bad
			}
			r.ID = in.V.ID
			r.Tasks = []*TaskIn{in}
			return r
		case "PATCH":
			r.K = "commit"
			var m ratus.Commit
			if len(body) > 0 && json.Unmarshal(body, &m) != nil {
				return bad
			}
			r.Nonce, r.NewTopic, r.Topic = m.Nonce, m.Topic, ""
			if m.State != nil {
				x := int32(*m.State)
				r.State = &x
				if x < 0 || x > 3 {
					return bad
				}
			}
			var ok bool
			r.Sched, ok = timeIn(m.Scheduled, m.Defer)
			if !ok {
				return bad
			}
			r.Payload = canonical(m.Payload)
			r.HasPay = r.Payload != ""
			return r
		}
	case kind == "promises":
		switch method {
		case "GET":
			if single {
				r.K = "getp"
				return r
			}
			r.K = "listp"
			if !page() {
				return bad
			}
			return r
		case "DELETE":
			r.K = "revokes"
			if single {
				r.K = "revoke"
			}
			return r
		case "POST", "PUT":
			if !single && method == "PUT" {
				return &Req{K: "any"}
			}
			r.K = "poll"
			if single {
				r.K = map[string]string{"POST": "claim", "PUT": "fclaim"}[method]
			}
			var p ratus.Promise
			if len(body) > 0 && json.Unmarshal(body, &p) != nil {
				return bad
			}
			if v := q.Get("_id"); v != "" {
				p.ID = v
			}
			if v := q.Get("consumer"); v != "" {
				p.Consumer = v
			}
			if v := q.Get("timeout"); v != "" {
				p.Timeout = v
			}
			if v := q.Get("deadline"); v != "" {
				t, err := time.Parse(time.RFC3339Nano, v)
				if err != nil {
					return &Req{K: "any"}
				}
				p.Deadline = &t
			}
			if single && p.ID != "" && p.ID != r.ID {
				return bad
			}
			if !single && p.ID != "" {
				r.K = "claim"
				r.ID = p.ID
			}
			if p.Deadline == nil && p.Timeout == "" {
				p.Timeout = "10m"
			}
			var ok bool
			r.Deadline, ok = timeIn(p.Deadline, p.Timeout)
			if !ok {
				return bad
			}
			r.Consumer = p.Consumer
			return r
		}
	}
	return &Req{K: "any"}
}

func timeIn(t *time.Time, d string) (TimeIn, bool) {
	if t != nil {
		return TimeIn{Set: true, Abs: *t}, true
	}
	if d != "" {
		x, err := time.ParseDuration(d)
		return TimeIn{Set: true, IsR: true, Rel: x}, err == nil
	}
	return TimeIn{}, true
}

func taskIn(t *ratus.Task, id, topic string) *TaskIn {
	if t == nil {
		return nil
	}
	v := *viewOf(t)
	in := &TaskIn{V: v}
	if in.V.ID == "" {
		in.V.ID = id
	}
	if in.V.ID == "" || (id != "" && in.V.ID != id) {
		return nil
	}
	if in.V.Topic == "" {
		in.V.Topic = topic
	}
	if in.V.Topic == "" || t.State < 0 || t.State > 3 {
		return nil
	}
	in.ProducedNow = t.Produced == nil
	var ok bool
	in.Sched, ok = timeIn(t.Scheduled, t.Defer)
	if !ok {
		return nil
	}
	if !in.Sched.Set {
		in.Sched = TimeIn{Set: true, IsR: true}
	}
	return in
}
