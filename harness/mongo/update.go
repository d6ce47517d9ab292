package mongo

import (
	"math"
	"reflect"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
)

type notApplicable struct{}

// leafOp is what an update operator does at the end of its path.
type leafOp struct {
	creates bool // absent fields on the path are created
	unset   bool
	leaf    func(old any, present bool) any // panics with notApplicable
}

func inapplicable() { panic(notApplicable{}) }

func build(path []string, op leafOp) any {
	if len(path) == 0 {
		return op.leaf(nil, false)
	}
	return bson.D{{path[0], build(path[1:], op)}}
}

func modify(v any, path []string, op leafOp) any {
	step := func(child any) any {
		if len(path) == 1 {
			return op.leaf(child, true)
		}
		return modify(child, path[1:], op)
	}
	switch x := v.(type) {
	case bson.D:
		out := append(bson.D{}, x...)
		for i, e := range out {
			if e.Key == path[0] {
				if op.unset && len(path) == 1 {
					return append(out[:i:i], out[i+1:]...)
				}
				out[i].Value = step(e.Value)
				return out
			}
		}
		if op.creates {
			out = append(out, bson.E{path[0], build(path[1:], op)})
		}
		return out
	case bson.A:
		i, ok := isIndex(path[0])
		if !ok {
			if op.creates {
				inapplicable()
			}
			return x
		}
		out := append(bson.A{}, x...)
		switch {
		case i < len(out):
			if op.unset && len(path) == 1 {
				out[i] = nil
			} else {
				out[i] = step(out[i])
			}
		case op.creates:
			if i-len(out) > 1500000 {
				inapplicable()
			}
			for len(out) < i {
				out = append(out, nil)
			}
			out = append(out, build(path[1:], op))
		}
		return out
	}
	if op.creates {
		inapplicable()
	}
	return v
}

func leafFor(op string, arg any) leafOp {
	arr := func(old any, present bool) bson.A {
		if !present {
			return bson.A{}
		}
		a, ok := old.(bson.A)
		if !ok {
			inapplicable()
		}
		return append(bson.A{}, a...)
	}
	switch op {
	case "$set":
		return leafOp{creates: true, leaf: func(any, bool) any { return arg }}
	case "$unset":
		return leafOp{unset: true}
	case "$inc":
		return leafOp{creates: true, leaf: func(old any, present bool) any {
			if !present {
				return arg
			}
			if f, ok := old.(float64); ok {
				n, _ := num(arg).Float64()
				return f + n
			}
			a, b := num(old), num(arg)
			if a == nil {
				inapplicable()
			}
			sum, acc := a.Add(a, b).Int64()
			if acc != 0 {
				inapplicable()
			}
			_, w1 := old.(int64)
			_, w2 := arg.(int64)
			if !w1 && !w2 && sum <= math.MaxInt32 && sum >= math.MinInt32 {
				return int32(sum)
			}
			return sum
		}}
	case "$push":
		return leafOp{creates: true, leaf: func(old any, present bool) any { return append(arr(old, present), arg) }}
	case "$addToSet":
		return leafOp{creates: true, leaf: func(old any, present bool) any {
			a := arr(old, present)
			for _, e := range a {
				if Equal(e, arg) {
					return a
				}
			}
			return append(a, arg)
		}}
	case "$pull":
		return leafOp{leaf: func(old any, present bool) any {
			out := bson.A{}
			for _, e := range arr(old, present) {
				match := Equal(e, arg)
				if q, ok := arg.(bson.D); ok {
					if len(q) > 0 && strings.HasPrefix(q[0].Key, "$") && !strings.Contains(" $and $or $nor $not ", " "+q[0].Key+" ") {
						match = true
						for _, o := range q {
							match = match && matchOp(bson.D{{"e", e}}, "e", o)
						}
					} else {
						d, isD := e.(bson.D)
						match = isD && Match(q, d)
					}
				}
				if !match {
					out = append(out, e)
				}
			}
			return out
		}}
	}
	panic("reference: " + op)
}

// Update applies a canonical, well-formed update to a document; ok is false if it is not applicable to it.
func Update(u bson.D, doc bson.D) (out bson.D, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(notApplicable); !is {
				panic(e)
			}
			out, ok = nil, false
		}
	}()
	var v any = doc
	for _, op := range u {
		for _, e := range op.Value.(bson.D) {
			v = modify(v, strings.Split(e.Key, "."), leafFor(op.Key, e.Value))
		}
	}
	out = v.(bson.D)
	id1, _ := field(doc, "_id")
	id2, _ := field(out, "_id")
	return out, reflect.DeepEqual(id1, id2)
}

// ClassifyUpdate says whether an update has to be supported.
func ClassifyUpdate(u bson.D) Status {
	st := OK
	var paths []string
	if len(u) == 0 {
		return Unsupported
	}
	for _, op := range u {
		d, ok := op.Value.(bson.D)
		if !ok {
			switch op.Value.(type) {
			case bson.M:
				st = worst(st, Unsupported)
				continue
			}
			return Malformed
		}
		switch op.Key {
		case "$set", "$unset", "$inc", "$push", "$pull", "$addToSet":
		default:
			return Malformed
		}
		for _, e := range d {
			for _, f := range strings.Split(e.Key, ".") {
				if f == "" || strings.HasPrefix(f, "$") {
					return Malformed
				}
			}
			for _, p := range paths {
				if p == e.Key || strings.HasPrefix(p, e.Key+".") || strings.HasPrefix(e.Key, p+".") {
					return Malformed
				}
			}
			paths = append(paths, e.Key)
			vd, isD := e.Value.(bson.D)
			switch op.Key {
			case "$inc":
				switch e.Value.(type) {
				case int, int8, int16, int32, int64:
				case float64, float32, uint8, uint16, uint32:
					st = worst(st, Unsupported)
				default:
					return Malformed
				}
			case "$push", "$addToSet":
				if isD && hasOperator(vd) {
					return Malformed // modifiers are not implemented
				}
			case "$pull":
				if isD && hasOperator(vd) && strings.HasPrefix(vd[0].Key, "$") {
					st = worst(st, Unsupported)
					if strings.Contains(" $and $or $nor $not ", " "+vd[0].Key+" ") {
						st = worst(st, Classify(vd))
						continue
					}
					for _, o := range vd {
						st = worst(st, classifyOp(o))
					}
				} else if isD {
					st = worst(st, Classify(vd))
				} else {
					st = worst(st, classifyLiteral(e.Value))
				}
			}
		}
	}
	return st
}

// Same compares documents; the order of fields matters except among those that the document before did not have.
func Same(got, want, before any) bool {
	if Equal(got, want) {
		return true
	}
	switch w := want.(type) {
	case bson.D:
		g, ok := got.(bson.D)
		if !ok || len(g) != len(w) {
			return false
		}
		b, _ := before.(bson.D)
		var old []string
		for _, e := range w {
			if _, had := field(b, e.Key); had {
				old = append(old, e.Key)
			}
		}
		for i, e := range g {
			if i < len(old) && e.Key != old[i] {
				return false
			}
			we, ok := field(w, e.Key)
			bf, _ := field(b, e.Key)
			if !ok || !Same(e.Value, we, bf) {
				return false
			}
		}
		return true
	case bson.A:
		g, ok := got.(bson.A)
		if !ok || len(g) != len(w) {
			return false
		}
		b, _ := before.(bson.A)
		for i := range w {
			var bf any = w[i]
			if i < len(b) && len(b) == len(w) {
				bf = b[i]
			}
			if !Same(g[i], w[i], bf) {
				return false
			}
		}
		return true
	}
	return Equal(got, want)
}
