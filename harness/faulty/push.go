package faulty

import (
	"context"
	"fmt"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.mongodb.org/mongo-driver/bson"
)

// PushMods adds the $each and $position modifiers of $push and $slice projections, which the in-memory database does
// not have, so that code written for MongoDB can run on it.
type PushMods struct{ D backend.NoSQLDatabase }

func (p PushMods) GetCollection(ctx context.Context, db, c string) (backend.NoSQLCollection, error) {
	out, err := p.D.GetCollection(ctx, db, c)
	return pushColl{out}, err
}

type pushColl struct{ backend.NoSQLCollection }

func (c pushColl) UpdateOne(ctx context.Context, f, u bson.D) (int, error) {
	return c.update(ctx, f, u, 1, c.NoSQLCollection.UpdateOne)
}

func (c pushColl) UpdateMany(ctx context.Context, f, u bson.D) (int, error) {
	return c.update(ctx, f, u, -1, c.NoSQLCollection.UpdateMany)
}

func (c pushColl) update(ctx context.Context, f, u bson.D, limit int, plain func(context.Context, bson.D, bson.D) (int, error)) (int, error) {
	if len(u) != 1 || u[0].Key != "$push" {
		return plain(ctx, f, u)
	}
	push, ok := u[0].Value.(bson.D)
	if !ok || len(push) != 1 {
		return plain(ctx, f, u)
	}
	mods, ok := push[0].Value.(bson.D)
	if !ok || len(mods) == 0 || mods[0].Key[0] != '$' {
		return plain(ctx, f, u)
	}
	var each bson.A
	position := -1
	for _, m := range mods {
		switch m.Key {
		case "$each":
			if each, ok = m.Value.(bson.A); !ok {
				return plain(ctx, f, u)
			}
		case "$position":
			switch n := m.Value.(type) {
			case int32:
				position = int(n)
			case int64:
				position = int(n)
			case int:
				position = n
			default:
				return plain(ctx, f, u)
			}
		default:
			return plain(ctx, f, u)
		}
	}
	cur, err := c.FindMany(ctx, f)
	if err != nil {
		return 0, err
	}
	var docs []bson.M
	if err := cur.All(ctx, &docs); err != nil {
		return 0, err
	}
	if limit == 1 && len(docs) > 1 {
		docs = docs[:1]
	}
	for _, d := range docs {
		old, _ := d[push[0].Key].(bson.A)
		at := position
		if at < 0 || at > len(old) {
			at = len(old)
		}
		list := append(append(append(bson.A{}, old[:at]...), each...), old[at:]...)
		if _, err := c.NoSQLCollection.UpdateOne(ctx, bson.D{{"_id", d["_id"]}}, bson.D{{"$set", bson.D{{push[0].Key, list}}}}); err != nil {
			return 0, err
		}
	}
	return len(docs), nil
}

func (c pushColl) FindOne(ctx context.Context, f bson.D, pr ...bson.D) (backend.NoSQLCursor, error) {
	cur, err := c.NoSQLCollection.FindOne(ctx, f)
	if err != nil || len(pr) == 0 {
		return cur, err
	}
	return sliced{cur, pr[0]}, nil
}

// sliced applies a projection {field: {$slice: [skip, limit]}} to the document it reads.
type sliced struct {
	backend.NoSQLCursor
	pr bson.D
}

func number(v any) int {
	switch n := v.(type) {
	case int32:
		return int(n)
	case int64:
		return int(n)
	case float64:
		return int(n)
	}
	panic(fmt.Sprintf("not a number: %v", v))
}

func (s sliced) One(ctx context.Context, obj interface{}) (bool, error) {
	var doc bson.M
	ok, err := s.NoSQLCursor.One(ctx, &doc)
	if !ok || err != nil {
		return ok, err
	}
	for _, e := range s.pr {
		spec, isDoc := e.Value.(bson.D)
		list, isList := doc[e.Key].(bson.A)
		if !isDoc || len(spec) != 1 || spec[0].Key != "$slice" || !isList {
			continue
		}
		skip, limit := 0, 0
		if a, ok := spec[0].Value.(bson.A); ok {
			skip, limit = number(a[0]), number(a[1])
		} else if limit = number(spec[0].Value); limit < 0 {
			skip, limit = limit, -limit
		}
		if skip < 0 {
			if skip += len(list); skip < 0 {
				skip = 0
			}
		}
		if skip > len(list) {
			skip = len(list)
		}
		if limit > len(list)-skip {
			limit = len(list) - skip
		}
		doc[e.Key] = list[skip : skip+limit]
	}
	b, err := bson.Marshal(doc)
	if err != nil {
		return false, err
	}
	return true, bson.Unmarshal(b, obj)
}
