// Package mongo is the reference: MongoDB's filter and update semantics over canonical BSON values
// (bson.D, bson.A, int32, int64, float64, string, bool, nil, ObjectID, DateTime), for the operators that the in-memory store implements.
package mongo

import (
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
)

type Status int

const (
	OK          Status = iota // the store supports it: it must give the reference's answer
	Unsupported               // the store may refuse it; if it answers, the answer must be right
	Malformed                 // must be refused
)

// Canon converts a Go value to the value that a stored copy of it has.
func Canon(v any) any {
	return CanonD(bson.D{{"v", v}})[0].Value
}

func CanonD(v any) bson.D {
	b, err := bson.Marshal(v)
	if err != nil {
		panic(err)
	}
	var d bson.D
	if err := bson.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return d
}

func num(v any) *big.Float {
	f := new(big.Float).SetPrec(200)
	switch x := v.(type) {
	case int32:
		return f.SetInt64(int64(x))
	case int64:
		return f.SetInt64(x)
	case float64:
		return f.SetFloat64(x)
	}
	return nil
}

// Equal is BSON equality: numbers by value, documents and arrays element by element in order.
func Equal(a, b any) bool {
	if x, y := num(a), num(b); x != nil || y != nil {
		return x != nil && y != nil && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case bson.D:
		y, ok := b.(bson.D)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key != y[i].Key || !Equal(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case bson.A:
		y, ok := b.(bson.A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

type missing struct{}

func field(d bson.D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

func isIndex(s string) (int, bool) {
	i, err := strconv.Atoi(s)
	return i, err == nil && i >= 0 && strconv.Itoa(i) == s
}

// leaves returns the values that the path reaches.
func leaves(v any, path []string) []any {
	if len(path) == 0 {
		return []any{v}
	}
	switch x := v.(type) {
	case bson.D:
		if f, ok := field(x, path[0]); ok {
			return leaves(f, path[1:])
		}
		return []any{missing{}}
	case bson.A:
		var out []any
		if i, ok := isIndex(path[0]); ok && i < len(x) {
			out = append(out, leaves(x[i], path[1:])...)
		}
		for _, e := range x {
			if d, ok := e.(bson.D); ok {
				out = append(out, leaves(d, path)...)
			}
		}
		return out
	}
	return []any{missing{}}
}

// some reports whether the predicate holds of a reached value or of an element of a reached array.
func some(doc bson.D, key string, p func(any) bool) bool {
	for _, l := range leaves(doc, strings.Split(key, ".")) {
		if p(l) {
			return true
		}
		if a, ok := l.(bson.A); ok {
			for _, e := range a {
				if p(e) {
					return true
				}
			}
		}
	}
	return false
}

func eq(want any) func(any) bool {
	return func(v any) bool {
		if _, m := v.(missing); m {
			return want == nil
		}
		return Equal(v, want)
	}
}

// Match evaluates a well-formed filter (in canonical BSON).
func Match(f bson.D, doc bson.D) bool {
	for _, e := range f {
		if !matchCond(e, doc) {
			return false
		}
	}
	return true
}

func matchCond(e bson.E, doc bson.D) bool {
	switch e.Key {
	case "$and", "$or", "$nor":
		any, all := false, true
		for _, q := range e.Value.(bson.A) {
			m := Match(q.(bson.D), doc)
			any, all = any || m, all && m
		}
		switch e.Key {
		case "$and":
			return all
		case "$or":
			return any
		}
		return !any
	case "$not": // an extension of the store: negation of a whole query
		return !Match(e.Value.(bson.D), doc)
	}
	d, isD := e.Value.(bson.D)
	if !isD || !hasOperator(d) {
		return some(doc, e.Key, eq(e.Value))
	}
	for _, op := range d {
		if !matchOp(doc, e.Key, op) {
			return false
		}
	}
	return true
}

func matchOp(doc bson.D, key string, op bson.E) bool {
	switch op.Key {
	case "$eq":
		return some(doc, key, eq(op.Value))
	case "$ne":
		return !some(doc, key, eq(op.Value))
	case "$gt", "$gte", "$lt", "$lte":
		want := num(op.Value)
		return some(doc, key, func(v any) bool {
			x := num(v)
			if x == nil || want == nil {
				return false
			}
			c := x.Cmp(want)
			switch op.Key {
			case "$gt":
				return c > 0
			case "$gte":
				return c >= 0
			case "$lt":
				return c < 0
			}
			return c <= 0
		})
	case "$in":
		for _, v := range op.Value.(bson.A) {
			if some(doc, key, eq(v)) {
				return true
			}
		}
		return false
	case "$regex":
		re := regexp.MustCompile(op.Value.(string))
		return some(doc, key, func(v any) bool { s, ok := v.(string); return ok && re.MatchString(s) })
	case "$exists":
		found := false
		for _, l := range leaves(doc, strings.Split(key, ".")) {
			if _, m := l.(missing); !m {
				found = true
			}
		}
		return found == op.Value.(bool)
	case "$all":
		vs := op.Value.(bson.A)
		for _, v := range vs {
			if !some(doc, key, eq(v)) {
				return false
			}
		}
		return len(vs) > 0
	case "$elemMatch":
		for _, l := range leaves(doc, strings.Split(key, ".")) {
			if a, ok := l.(bson.A); ok {
				for _, e := range a {
					if d, ok := e.(bson.D); ok && Match(op.Value.(bson.D), d) {
						return true
					}
				}
			}
		}
		return false
	}
	panic("reference: " + op.Key)
}

func hasOperator(d bson.D) bool {
	for _, e := range d {
		if strings.HasPrefix(e.Key, "$") {
			return true
		}
	}
	return false
}

func worst(a, b Status) Status {
	if a > b {
		return a
	}
	return b
}

// Classify says whether the store has to support a filter (given as the caller wrote it, composed of bson.D, bson.A and Go scalars and slices).
func Classify(f bson.D) Status {
	st := OK
	for _, e := range f {
		st = worst(st, classifyCond(e))
	}
	return st
}

func classifyCond(e bson.E) Status {
	switch e.Key {
	case "$and", "$or", "$nor":
		a, ok := e.Value.(bson.A)
		if !ok || len(a) == 0 {
			return Malformed
		}
		st := OK
		for _, q := range a {
			d, ok := q.(bson.D)
			if !ok {
				return Malformed
			}
			st = worst(st, Classify(d))
		}
		return st
	case "$not":
		d, ok := e.Value.(bson.D)
		if !ok {
			return Malformed
		}
		return Classify(d)
	}
	if strings.HasPrefix(e.Key, "$") {
		return Malformed
	}
	d, isD := e.Value.(bson.D)
	if !isD || !hasOperator(d) {
		return classifyLiteral(e.Value)
	}
	st := OK
	for _, op := range d {
		st = worst(st, classifyOp(op))
	}
	return st
}

func classifyLiteral(v any) Status {
	st := OK
	switch x := v.(type) {
	case bson.D:
		for _, e := range x {
			if strings.HasPrefix(e.Key, "$") {
				return Malformed
			}
			if strings.Contains(e.Key, ".") {
				st = worst(st, Unsupported)
			}
			st = worst(st, classifyLiteral(e.Value))
		}
	case bson.A:
		for _, e := range x {
			if _, nested := e.(bson.A); nested {
				st = worst(st, Unsupported)
			}
			st = worst(st, classifyLiteral(e))
		}
	case bson.M, bson.E:
		return Unsupported
	}
	return st
}

func classifyOp(op bson.E) Status {
	switch op.Key {
	case "$eq", "$ne":
		return classifyLiteral(op.Value)
	case "$gt", "$gte", "$lt", "$lte":
		if num(Canon(op.Value)) == nil {
			return Unsupported
		}
		if k := reflect.TypeOf(op.Value).Kind(); k >= reflect.Uint && k <= reflect.Uintptr {
			return Unsupported
		}
		return OK
	case "$in", "$all":
		v := reflect.ValueOf(op.Value)
		if v.Kind() != reflect.Slice {
			return Malformed
		}
		if _, isD := op.Value.(bson.D); isD {
			return Malformed
		}
		if _, isA := op.Value.(bson.A); !isA && op.Key == "$all" {
			return Unsupported
		}
		st := OK
		for i := 0; i < v.Len(); i++ {
			st = worst(st, classifyLiteral(v.Index(i).Interface()))
		}
		return st
	case "$regex":
		s, ok := op.Value.(string)
		if !ok {
			return Malformed
		}
		if _, err := regexp.Compile(s); err != nil {
			return Malformed
		}
		return OK
	case "$exists":
		if _, ok := op.Value.(bool); !ok {
			return Unsupported
		}
		return OK
	case "$elemMatch":
		d, ok := op.Value.(bson.D)
		if !ok {
			return Malformed
		}
		if hasOperator(d) {
			for _, e := range d {
				switch e.Key {
				case "$and", "$or", "$nor", "$not":
				default:
					if strings.HasPrefix(e.Key, "$") {
						return Unsupported
					}
				}
			}
		}
		return Classify(d)
	}
	return Malformed // $nin, $size, $type, ... and unknown operators: the store implements none of them, so it must say so
}
