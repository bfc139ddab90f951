package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// The document half of the MongoDB model: values, filters, updates, projections
// and the aggregation stages a queue could plausibly use.

type merr struct {
	code  int
	name  string
	msg   string
	label string
}

func (e *merr) Error() string { return fmt.Sprintf("(%s) %s", e.name, e.msg) }

func badValue(f string, a ...any) *merr {
	return &merr{2, "BadValue", fmt.Sprintf(f, a...), ""}
}

// unsupported marks a feature the model does not know.
type unsupported string

func lookup(d bson.D, key string) (any, bool) {
	for _, e := range d {
		if e.Key == key {
			return e.Value, true
		}
	}
	return nil, false
}

func getPath(v any, path string) (any, bool) {
	for _, p := range strings.Split(path, ".") {
		switch x := v.(type) {
		case bson.D:
			y, ok := lookup(x, p)
			if !ok {
				return nil, false
			}
			v = y
		case bson.A:
			i := 0
			if _, err := fmt.Sscanf(p, "%d", &i); err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(d bson.D, path string, v any) bson.D {
	head, rest, nested := strings.Cut(path, ".")
	for i, e := range d {
		if e.Key == head {
			if nested {
				sub, _ := e.Value.(bson.D)
				v = setPath(cloneD(sub), rest, v)
			}
			d[i].Value = v
			return d
		}
	}
	if nested {
		v = setPath(bson.D{}, rest, v)
	}
	return append(d, bson.E{Key: head, Value: v})
}

func unsetPath(d bson.D, path string) bson.D {
	head, rest, nested := strings.Cut(path, ".")
	for i, e := range d {
		if e.Key == head {
			if nested {
				if sub, ok := e.Value.(bson.D); ok {
					d[i].Value = unsetPath(cloneD(sub), rest)
				}
				return d
			}
			return append(d[:i:i], d[i+1:]...)
		}
	}
	return d
}

func cloneD(d bson.D) bson.D { return append(bson.D{}, d...) }

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case int:
		return float64(x), true
	}
	return 0, false
}

func typeRank(v any) int {
	switch v.(type) {
	case nil, primitive.Null, primitive.Undefined:
		return 5
	case int32, int64, float64, int, primitive.Decimal128:
		return 10
	case string, primitive.Symbol:
		return 15
	case bson.D:
		return 20
	case bson.A:
		return 25
	case primitive.Binary:
		return 30
	case primitive.ObjectID:
		return 35
	case bool:
		return 40
	case primitive.DateTime:
		return 45
	case primitive.Timestamp:
		return 47
	}
	return 60
}

func cmpV(a, b any) int {
	if x, y := typeRank(a), typeRank(b); x != y {
		return sign(x - y)
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	case primitive.DateTime:
		return cmpInt(int64(x), int64(b.(primitive.DateTime)))
	case primitive.ObjectID:
		y := b.(primitive.ObjectID)
		return bytes.Compare(x[:], y[:])
	case primitive.Binary:
		y := b.(primitive.Binary)
		return bytes.Compare(x.Data, y.Data)
	case bson.D:
		y := b.(bson.D)
		for i := 0; i < len(x) && i < len(y); i++ {
			if c := cmpInt(int64(typeRank(x[i].Value)), int64(typeRank(y[i].Value))); c != 0 {
				return c
			}
			if c := strings.Compare(x[i].Key, y[i].Key); c != 0 {
				return c
			}
			if c := cmpV(x[i].Value, y[i].Value); c != 0 {
				return c
			}
		}
		return sign(len(x) - len(y))
	case bson.A:
		y := b.(bson.A)
		for i := 0; i < len(x) && i < len(y); i++ {
			if c := cmpV(x[i], y[i]); c != 0 {
				return c
			}
		}
		return sign(len(x) - len(y))
	}
	if x, ok := num(a); ok {
		y, _ := num(b)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
	}
	return 0
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func cmpInt(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func isOps(v any) (bson.D, bool) {
	d, ok := v.(bson.D)
	return d, ok && len(d) > 0 && strings.HasPrefix(d[0].Key, "$")
}

func match(doc bson.D, f bson.D) bool {
	for _, e := range f {
		switch e.Key {
		case "$and", "$or", "$nor":
			a, _ := e.Value.(bson.A)
			any := false
			all := true
			for _, x := range a {
				if match(doc, x.(bson.D)) {
					any = true
				} else {
					all = false
				}
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any || e.Key == "$nor" && any {
				return false
			}
			continue
		case "$comment":
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			panic(unsupported("filter operator " + e.Key))
		}
		v, ok := getPath(doc, e.Key)
		if ops, is := isOps(e.Value); is {
			for _, op := range ops {
				if !matchOp(v, ok, op.Key, op.Value) {
					return false
				}
			}
			continue
		}
		if !eqMatch(v, ok, e.Value) {
			return false
		}
	}
	return true
}

func eqMatch(v any, ok bool, want any) bool {
	if want == nil {
		return !ok || v == nil
	}
	if !ok {
		return false
	}
	if a, is := v.(bson.A); is {
		for _, x := range a {
			if typeRank(x) == typeRank(want) && cmpV(x, want) == 0 {
				return true
			}
		}
	}
	return typeRank(v) == typeRank(want) && cmpV(v, want) == 0
}

func matchOp(v any, ok bool, op string, want any) bool {
	switch op {
	case "$eq":
		return eqMatch(v, ok, want)
	case "$ne":
		return !eqMatch(v, ok, want)
	case "$gt", "$gte", "$lt", "$lte":
		if !ok || typeRank(v) != typeRank(want) {
			return false
		}
		c := cmpV(v, want)
		switch op {
		case "$gt":
			return c > 0
		case "$gte":
			return c >= 0
		case "$lt":
			return c < 0
		}
		return c <= 0
	case "$in", "$nin":
		hit := false
		for _, x := range want.(bson.A) {
			if eqMatch(v, ok, x) {
				hit = true
			}
		}
		return hit == (op == "$in")
	case "$exists":
		b, is := want.(bool)
		if !is {
			n, _ := num(want)
			b = n != 0
		}
		return ok == b
	case "$not":
		if ops, is := isOps(want); is {
			for _, o := range ops {
				if !matchOp(v, ok, o.Key, o.Value) {
					return true
				}
			}
			return false
		}
	case "$type":
		names := map[int][]any{5: {"null", int32(10)}, 10: {"number"}, 15: {"string", int32(2)}, 20: {"object", int32(3)}, 40: {"bool", int32(8)}, 45: {"date", int32(9)}}
		for _, n := range names[typeRank(v)] {
			if ok && cmpV(n, want) == 0 {
				return true
			}
		}
		return false
	}
	panic(unsupported("filter operator " + op))
}

// equalityOn finds the value a filter pins key to.
func equalityOn(f bson.D, key string) (any, bool) {
	for _, e := range f {
		if e.Key == "$and" {
			for _, x := range e.Value.(bson.A) {
				if v, ok := equalityOn(x.(bson.D), key); ok {
					return v, true
				}
			}
		}
		if e.Key != key {
			continue
		}
		if ops, is := isOps(e.Value); is {
			for _, o := range ops {
				if o.Key == "$eq" {
					return o.Value, true
				}
				if a, ok := o.Value.(bson.A); ok && o.Key == "$in" && len(a) == 1 {
					return a[0], true
				}
			}
			continue
		}
		return e.Value, true
	}
	return nil, false
}

// implies reports whether filter f implies the equality filter p of a partial index.
func implies(f, p bson.D) bool {
	for _, e := range p {
		if v, ok := equalityOn(f, e.Key); !ok || cmpV(v, e.Value) != 0 {
			return false
		}
	}
	return true
}

func sameD(a, b bson.D) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || cmpV(a[i].Value, b[i].Value) != 0 {
			return false
		}
	}
	return true
}

// applyUpdate returns the updated document.
func applyUpdate(doc bson.D, u any, inserting bool, f bson.D, now time.Time) (bson.D, *merr) {
	out := cloneD(doc)
	switch x := u.(type) {
	case bson.A: // pipeline
		for _, s := range x {
			st := s.(bson.D)[0]
			switch st.Key {
			case "$set", "$addFields":
				cur := cloneD(out)
				for _, e := range st.Value.(bson.D) {
					v, ok := evalExpr(cur, e.Value, now)
					if ok {
						out = setPath(out, e.Key, v)
					} else {
						out = unsetPath(out, e.Key)
					}
				}
			case "$unset":
				switch y := st.Value.(type) {
				case string:
					out = unsetPath(out, y)
				case bson.A:
					for _, z := range y {
						out = unsetPath(out, z.(string))
					}
				}
			case "$replaceWith":
				v, _ := evalExpr(out, st.Value, now)
				out = v.(bson.D)
			case "$replaceRoot":
				n, _ := lookup(st.Value.(bson.D), "newRoot")
				v, _ := evalExpr(out, n, now)
				out = v.(bson.D)
			default:
				panic(unsupported("update stage " + st.Key))
			}
		}
	case bson.D:
		if len(x) == 0 || !strings.HasPrefix(x[0].Key, "$") {
			// Replacement.
			id, has := lookup(doc, "_id")
			nd := bson.D{}
			if nid, ok := lookup(x, "_id"); ok {
				if has && cmpV(id, nid) != 0 {
					return nil, &merr{66, "ImmutableField", "the _id field cannot be changed", ""}
				}
				nd = append(nd, bson.E{Key: "_id", Value: nid})
			} else if has {
				nd = append(nd, bson.E{Key: "_id", Value: id})
			}
			for _, e := range x {
				if e.Key != "_id" {
					nd = append(nd, e)
				}
			}
			return nd, nil
		}
		seen := map[string]bool{}
		for _, op := range x {
			args, ok := op.Value.(bson.D)
			if !ok {
				return nil, &merr{9, "FailedToParse", "modifiers operate on fields", ""}
			}
			for _, e := range args {
				if seen[e.Key] {
					return nil, &merr{40, "ConflictingUpdateOperators", "updating the path '" + e.Key + "' would create a conflict", ""}
				}
				seen[e.Key] = true
				if e.Key == "_id" && !inserting {
					if id, _ := lookup(doc, "_id"); op.Key != "$set" || cmpV(id, e.Value) != 0 {
						return nil, &merr{66, "ImmutableField", "performing an update on the path '_id' would modify the immutable field '_id'", ""}
					}
				}
				cur, has := getPath(out, e.Key)
				switch op.Key {
				case "$set":
					out = setPath(out, e.Key, e.Value)
				case "$setOnInsert":
					if inserting {
						out = setPath(out, e.Key, e.Value)
					}
				case "$unset":
					out = unsetPath(out, e.Key)
				case "$inc", "$mul":
					a, _ := num(cur)
					b, _ := num(e.Value)
					r := a + b
					if op.Key == "$mul" {
						r = a * b
					}
					_, f1 := cur.(float64)
					_, f2 := e.Value.(float64)
					if f1 || f2 {
						out = setPath(out, e.Key, r)
					} else {
						out = setPath(out, e.Key, int64(r))
					}
				case "$min":
					if !has || cmpV(e.Value, cur) < 0 {
						out = setPath(out, e.Key, e.Value)
					}
				case "$max":
					if !has || cmpV(e.Value, cur) > 0 {
						out = setPath(out, e.Key, e.Value)
					}
				case "$currentDate":
					out = setPath(out, e.Key, primitive.NewDateTimeFromTime(now))
				case "$rename":
					if has {
						out = setPath(unsetPath(out, e.Key), e.Value.(string), cur)
					}
				default:
					panic(unsupported("update operator " + op.Key))
				}
			}
		}
	default:
		return nil, &merr{9, "FailedToParse", "update must be an object or an array", ""}
	}
	return out, nil
}

func evalExpr(doc bson.D, x any, now time.Time) (any, bool) {
	switch v := x.(type) {
	case string:
		if v == "$$NOW" {
			return primitive.NewDateTimeFromTime(now), true
		}
		if v == "$$ROOT" {
			return doc, true
		}
		if v == "$$REMOVE" {
			return nil, false
		}
		if strings.HasPrefix(v, "$$") {
			panic(unsupported("variable " + v))
		}
		if strings.HasPrefix(v, "$") {
			return getPath(doc, v[1:])
		}
		return v, true
	case bson.D:
		if len(v) == 1 && strings.HasPrefix(v[0].Key, "$") {
			arg := v[0].Value
			list := func() (out []any) {
				if a, ok := arg.(bson.A); ok {
					for _, y := range a {
						z, _ := evalExpr(doc, y, now)
						out = append(out, z)
					}
					return
				}
				z, _ := evalExpr(doc, arg, now)
				return []any{z}
			}
			truth := func(z any) bool {
				if b, ok := z.(bool); ok {
					return b
				}
				if n, ok := num(z); ok {
					return n != 0
				}
				return z != nil
			}
			switch v[0].Key {
			case "$literal":
				return arg, true
			case "$ifNull":
				l := list()
				for _, z := range l {
					if z != nil {
						return z, true
					}
				}
				return l[len(l)-1], true
			case "$cond":
				if d, ok := arg.(bson.D); ok {
					c, _ := lookup(d, "if")
					t, _ := lookup(d, "then")
					e, _ := lookup(d, "else")
					arg = bson.A{c, t, e}
				}
				a := arg.(bson.A)
				c, _ := evalExpr(doc, a[0], now)
				if truth(c) {
					return evalExpr(doc, a[1], now)
				}
				return evalExpr(doc, a[2], now)
			case "$eq", "$ne", "$gt", "$gte", "$lt", "$lte":
				l := list()
				c := cmpV(l[0], l[1])
				return map[string]bool{"$eq": c == 0, "$ne": c != 0, "$gt": c > 0, "$gte": c >= 0, "$lt": c < 0, "$lte": c <= 0}[v[0].Key], true
			case "$and", "$or":
				r := v[0].Key == "$and"
				for _, z := range list() {
					if truth(z) != r {
						return !r, true
					}
				}
				return r, true
			case "$not":
				return !truth(list()[0]), true
			case "$add", "$subtract":
				l := list()
				a, _ := num(l[0])
				b, _ := num(l[1])
				if v[0].Key == "$subtract" {
					b = -b
				}
				return a + b, true
			}
			panic(unsupported("expression " + v[0].Key))
		}
		out := bson.D{}
		for _, e := range v {
			if z, ok := evalExpr(doc, e.Value, now); ok {
				out = append(out, bson.E{Key: e.Key, Value: z})
			}
		}
		return out, true
	}
	return x, true
}

func project(doc bson.D, p bson.D) bson.D {
	if len(p) == 0 {
		return doc
	}
	incl, idOff := false, false
	for _, e := range p {
		n, isNum := num(e.Value)
		b, isBool := e.Value.(bool)
		on := isNum && n != 0 || isBool && b || (!isNum && !isBool)
		if e.Key == "_id" {
			idOff = !on
			continue
		}
		incl = incl || on
	}
	if !incl && len(p) == 1 && p[0].Key == "_id" && !idOff {
		incl = true
	}
	out := bson.D{}
	if !incl {
		out = cloneD(doc)
		for _, e := range p {
			out = unsetPath(out, e.Key)
		}
		if !idOff {
			if _, ok := lookup(out, "_id"); !ok {
				if id, has := lookup(doc, "_id"); has {
					out = append(bson.D{{Key: "_id", Value: id}}, out...)
				}
			}
		}
		return out
	}
	if id, ok := lookup(doc, "_id"); ok && !idOff {
		out = append(out, bson.E{Key: "_id", Value: id})
	}
	for _, e := range p {
		if e.Key == "_id" {
			continue
		}
		_, isNum := num(e.Value)
		_, isBool := e.Value.(bool)
		if isNum || isBool {
			if v, ok := getPath(doc, e.Key); ok {
				out = setPath(out, e.Key, v)
			}
			continue
		}
		if v, ok := evalExpr(doc, e.Value, time.Time{}); ok {
			out = setPath(out, e.Key, v)
		}
	}
	return out
}

func sortDocs(docs []bson.D, by bson.D) {
	sort.SliceStable(docs, func(i, j int) bool {
		for _, e := range by {
			a, _ := getPath(docs[i], e.Key)
			b, _ := getPath(docs[j], e.Key)
			c := cmpV(a, b)
			if n, _ := num(e.Value); n < 0 {
				c = -c
			}
			if c != 0 {
				return c < 0
			}
		}
		return false
	})
}

func hashV(v any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%T%v", v, v)
	return h.Sum64()
}

// aggregate runs the stages over docs.
func aggregate(docs []bson.D, pipeline bson.A, now time.Time) ([]bson.D, *merr) {
	for _, s := range pipeline {
		st, ok := s.(bson.D)
		if !ok || len(st) != 1 {
			return nil, &merr{40323, "Location40323", "a pipeline stage specification object must contain exactly one field", ""}
		}
		arg := st[0].Value
		switch st[0].Key {
		case "$match":
			var out []bson.D
			for _, d := range docs {
				if match(d, arg.(bson.D)) {
					out = append(out, d)
				}
			}
			docs = out
		case "$skip":
			n, ok := num(arg)
			if !ok || n < 0 {
				return nil, &merr{5107200, "Location5107200", "invalid argument to $skip stage", ""}
			}
			docs = docs[min(len(docs), int(n)):]
		case "$limit":
			n, ok := num(arg)
			if !ok || n <= 0 {
				return nil, &merr{15958, "Location15958", "the limit must be positive", ""}
			}
			docs = docs[:min(len(docs), int(n))]
		case "$sort":
			docs = append([]bson.D(nil), docs...)
			sortDocs(docs, arg.(bson.D))
		case "$project":
			var out []bson.D
			for _, d := range docs {
				out = append(out, project(d, arg.(bson.D)))
			}
			docs = out
		case "$addFields", "$set":
			var out []bson.D
			for _, d := range docs {
				n := cloneD(d)
				for _, e := range arg.(bson.D) {
					v, _ := evalExpr(d, e.Value, now)
					n = setPath(n, e.Key, v)
				}
				out = append(out, n)
			}
			docs = out
		case "$count":
			if len(docs) == 0 {
				docs = nil
			} else {
				docs = []bson.D{{{Key: arg.(string), Value: int32(len(docs))}}}
			}
		case "$group":
			docs = group(docs, arg.(bson.D), now)
		case "$sortByCount":
			docs = group(docs, bson.D{{Key: "_id", Value: arg}, {Key: "count", Value: bson.D{{Key: "$sum", Value: int32(1)}}}}, now)
			sortDocs(docs, bson.D{{Key: "count", Value: int32(-1)}})
		default:
			panic(unsupported("stage " + st[0].Key))
		}
	}
	return docs, nil
}

func group(docs []bson.D, spec bson.D, now time.Time) []bson.D {
	key, _ := lookup(spec, "_id")
	type grp struct {
		id   any
		docs []bson.D
	}
	var gs []*grp
	for _, d := range docs {
		id, _ := evalExpr(d, key, now)
		var g *grp
		for _, x := range gs {
			if cmpV(x.id, id) == 0 {
				g = x
			}
		}
		if g == nil {
			g = &grp{id: id}
			gs = append(gs, g)
		}
		g.docs = append(g.docs, d)
	}
	// The order of groups is arbitrary but stable, as with a scan of the hashed index.
	sort.SliceStable(gs, func(i, j int) bool { return hashV(gs[i].id) < hashV(gs[j].id) })
	var out []bson.D
	for _, g := range gs {
		d := bson.D{{Key: "_id", Value: g.id}}
		for _, e := range spec {
			if e.Key == "_id" {
				continue
			}
			acc := e.Value.(bson.D)[0]
			var v any
			switch acc.Key {
			case "$sum":
				sum, fl := 0.0, false
				for _, x := range g.docs {
					y, _ := evalExpr(x, acc.Value, now)
					n, _ := num(y)
					if _, is := y.(float64); is {
						fl = true
					}
					sum += n
				}
				if v = int32(sum); fl {
					v = sum
				}
			case "$count":
				v = int32(len(g.docs))
			case "$first":
				v, _ = evalExpr(g.docs[0], acc.Value, now)
			case "$last":
				v, _ = evalExpr(g.docs[len(g.docs)-1], acc.Value, now)
			case "$min", "$max":
				for i, x := range g.docs {
					y, _ := evalExpr(x, acc.Value, now)
					if i == 0 || cmpV(y, v) < 0 == (acc.Key == "$min") {
						v = y
					}
				}
			case "$push":
				a := bson.A{}
				for _, x := range g.docs {
					y, _ := evalExpr(x, acc.Value, now)
					a = append(a, y)
				}
				v = a
			default:
				panic(unsupported("accumulator " + acc.Key))
			}
			d = append(d, bson.E{Key: e.Key, Value: v})
		}
		out = append(out, d)
	}
	return out
}
