From 7fd3fb0b0e731e3e9fedd2264bd1068e656bdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 001/102] fix: simplecache: make Get and Incr safe under
 concurrent use

Get read the value map without holding the lock and Incr was a non-atomic
Get followed by Put, so concurrent increments were lost.
---
 runtime/plugins/simplecache/cache.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..b46d3ec 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,6 +31,8 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
+	cache.RLock()
+	defer cache.RUnlock()
 	if v, exists := cache.values[key]; exists {
 		return true, backend.CopyResult(v, val)
 	}
@@ -73,11 +75,15 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	if v, exists := cache.values[key]; exists {
+		if err := backend.CopyResult(v, &cur); err != nil {
+			return cur, err
+		}
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 7a5f6c414831f0eff2daa32a1b1d8c13fdc069df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 002/102] fix: clientpool: wake a waiting caller when another
 caller's client construction fails

---
 runtime/plugins/clientpool/clientpool.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..dfb87cf 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -20,6 +20,7 @@ type ClientPool[T any] struct {
 	size      int64
 	available int64
 	waiting   int64
+	freed     chan struct{} // signalled when a failed build gives back capacity
 }
 
 // Instantiates a [ClientPool] that will have up to maxClients client instances.
@@ -35,6 +36,7 @@ func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T]
 		size:      0,
 		available: 0,
 		waiting:   0,
+		freed:     make(chan struct{}, capacity),
 	}
 	return pool
 }
@@ -44,10 +46,12 @@ func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T]
 // When a caller has finished using a client, it *must* call [ClientPool.Push] to
 // return the client to the pool.
 func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
+retry:
 	// Attempt to immediately reuse an existing client
 	select {
 	case <-ctx.Done():
 		err = errors.New("timeout before client was available")
+		pool.signalFreed() // pass on a signal that we might have received but not used
 		return
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
@@ -56,15 +60,16 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	}
 
 	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
+	for curSize := atomic.LoadInt64(&pool.size); curSize < pool.capacity; {
 		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
 			client, err = pool.build()
 			if err != nil {
 				atomic.AddInt64(&pool.size, -1)
+				pool.signalFreed()
 			}
 			return
 		}
-		curSize = pool.size
+		curSize = atomic.LoadInt64(&pool.size)
 	}
 
 	// Pool is at capacity; wait to reuse an existing client
@@ -74,11 +79,22 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 		err = errors.New("timeout before client was available")
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
+	case <-pool.freed:
+		atomic.AddInt64(&pool.waiting, -1)
+		goto retry
 	}
 	atomic.AddInt64(&pool.waiting, -1)
 	return
 }
 
+// Wakes up a caller that might be waiting for capacity that has become free.
+func (pool *ClientPool[T]) signalFreed() {
+	select {
+	case pool.freed <- struct{}{}:
+	default:
+	}
+}
+
 // Returns a client to the pool.
 func (pool *ClientPool[T]) Push(client T) {
 	atomic.AddInt64(&pool.available, 1)
@@ -92,10 +108,10 @@ func (pool *ClientPool[T]) Capacity() int {
 
 // Returns the current size of the client pool
 func (pool *ClientPool[T]) Size() int {
-	return int(pool.size)
+	return int(atomic.LoadInt64(&pool.size))
 }
 
 // Returns the current number of available clients in the client pool
 func (pool *ClientPool[T]) Available() int {
-	return int(pool.available)
+	return int(atomic.LoadInt64(&pool.available))
 }
-- 
2.43.0


From 4c4dc2660a562f459ce4c9b811493e7aa89bbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 003/102] fix: registry: make Get safe for concurrent callers
 and keep an explicitly set default

---
 runtime/core/registry/registry.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..d7e3fde 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -9,6 +9,7 @@ package registry
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/pkg/errors"
 	"golang.org/x/exp/slog"
@@ -22,6 +23,7 @@ type ServiceRegistry[T any] struct {
 	isBuilt          bool
 	built            T
 	buildError       error
+	mu               sync.Mutex // held while building, so that concurrent callers wait for the client
 }
 
 func NewServiceRegistry[T any](name string) *ServiceRegistry[T] {
@@ -38,7 +40,7 @@ func (r *ServiceRegistry[T]) SetDefault(name string) {
 
 func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Context) (T, error)) {
 	slog.Info(fmt.Sprintf("ServiceRegistry \"%v\" added client \"%v\"", r.name, name))
-	if len(r.registered) == 0 {
+	if len(r.registered) == 0 && r.defaultBuildFunc == "" {
 		r.defaultBuildFunc = name
 	}
 	r.registered[name] = build
@@ -48,6 +50,8 @@ func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Contex
 // then the client will be built.  The client and any build error is cached,
 // and will be returned by any subsequent calls to Get
 func (r *ServiceRegistry[T]) Get(ctx context.Context) (T, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	if r.isBuilt {
 		return r.built, r.buildError
 	}
-- 
2.43.0


From 12ab30207e7d27a6ed4b596a18def7ef3e970420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 004/102] fix: golang namespace: make Get safe for concurrent
 callers and build each node only once

---
 runtime/plugins/golang/namespace.go | 43 +++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..b930f84 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -83,6 +83,9 @@ type Namespace struct {
 	buildFuncs map[string]BuildFunc
 	built      map[string]any
 
+	mu       sync.Mutex               // guards built and building
+	building map[string]chan struct{} // nodes being built; closed once the build has ended
+
 	ctx    context.Context
 	cancel context.CancelFunc
 	wg     *sync.WaitGroup
@@ -226,6 +229,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
+	n.building = make(map[string]chan struct{})
 	n.ctx, n.cancel = context.WithCancel(ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -274,6 +278,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
+	n.building = make(map[string]chan struct{})
 	n.ctx, n.cancel = context.WithCancel(parent.ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -355,7 +360,10 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
+	n.mu.Lock()
+	_, isBuilt := n.built[name]
+	n.mu.Unlock()
+	if isBuilt {
 		return true
 	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
@@ -367,10 +375,39 @@ func (n *Namespace) has(name string) bool {
 	return false
 }
 
+// Waits for any ongoing build of name to end, then returns the node if it has been built.
+// If it has not, the caller may build it, and must call finish once it has done so.
+func (n *Namespace) claim(name string) (existing any, exists bool, finish func()) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	for n.building[name] != nil {
+		ongoing := n.building[name]
+		n.mu.Unlock()
+		<-ongoing
+		n.mu.Lock()
+	}
+	existing, exists = n.built[name]
+	if _, hasDef := n.buildFuncs[name]; exists || !hasDef {
+		return existing, exists, func() {}
+	}
+	done := make(chan struct{})
+	n.building[name] = done
+	return nil, false, func() {
+		n.mu.Lock()
+		defer n.mu.Unlock()
+		delete(n.building, name)
+		close(done)
+	}
+}
+
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
+//
+// Get is safe for concurrent use; concurrent calls build a node only once.
 func (n *Namespace) Get(name string, receiver any) error {
-	if existing, exists := n.built[name]; exists {
+	existing, exists, finish := n.claim(name)
+	defer finish()
+	if exists {
 		return backend.CopyResult(existing, receiver)
 	}
 	if build, exists := n.buildFuncs[name]; exists {
@@ -386,7 +423,9 @@ func (n *Namespace) Get(name string, receiver any) error {
 				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 			}
 		}
+		n.mu.Lock()
 		n.built[name] = built
+		n.mu.Unlock()
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-- 
2.43.0


From 3b0a553b00d01fe73c80cb10497de61e6d8c618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 005/102] fix: golang namespace: waiting on a namespace waits
 for the nodes of all its descendants

---
 runtime/plugins/golang/namespace.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index b930f84..31c12df 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -430,8 +430,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
 			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
+			for p := n.parent; p != nil; p = p.parent {
+				p.wg.Add(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -442,8 +442,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
 				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
+				for p := n.parent; p != nil; p = p.parent {
+					p.wg.Done()
 				}
 			}()
 		}
-- 
2.43.0


From 2bcf5ee2f142fd8cd3cfba3b2170437f8a2f6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 006/102] fix: backend: copying a nil result no longer panics

---
 runtime/core/backend/reflect.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..9781495 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -8,7 +8,7 @@ import (
 
 func GetPointerValue(val any) (any, error) {
 	val_ptr := reflect.ValueOf(val)
-	if val_ptr.Kind() != reflect.Pointer {
+	if val_ptr.Kind() != reflect.Pointer || val_ptr.IsNil() {
 		return nil, errors.Errorf("cannot indirect non-pointer type %v", val)
 	}
 	return reflect.Indirect(val_ptr).Interface(), nil
@@ -27,6 +27,16 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is nil; it can only be copied to something that can be nil
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
+			dst_val.SetZero()
+			return nil
+		}
+		return errors.Errorf("unable to copy nil to type %v", dst_val.Type())
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From f80a3ef15bd8865cceee67d0c73e57ebf7574277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 007/102] fix: backend: decoding a span context with malformed
 trace flags is an error

---
 runtime/core/backend/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/backend/trace.go b/runtime/core/backend/trace.go
index ca3c9b2..ff5baea 100644
--- a/runtime/core/backend/trace.go
+++ b/runtime/core/backend/trace.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"encoding/json"
+	"fmt"
 
 	"go.opentelemetry.io/otel/trace"
 )
@@ -49,6 +50,9 @@ func GetSpanContext(encoded_string string) (trace.SpanContextConfig, error) {
 	if err != nil {
 		return trace.SpanContextConfig{}, err
 	}
+	if len(flag_bytes) != 1 {
+		return trace.SpanContextConfig{}, fmt.Errorf("invalid trace flags %q", tCtx.TraceFlags)
+	}
 	tFlags := trace.TraceFlags(flag_bytes[0])
 	tState, err := trace.ParseTraceState(tCtx.TraceState)
 	if err != nil {
-- 
2.43.0


From 016dc652a61982038590f96289d3b62ac71641b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 008/102] fix: simplenosqldb: $and, $or and $nor without
 queries are errors

An empty $or matched every document.
---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..1ecafc6 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -25,6 +25,9 @@ func init() {
 }
 
 func parseQueries(a bson.A) ([]Filter, error) {
+	if len(a) == 0 {
+		return nil, errors.Errorf("logical operators require at least one query")
+	}
 	var filters []Filter
 	for _, v := range a {
 		d, isD := v.(bson.D)
-- 
2.43.0


From bfc282f7965c5a42a65f25315f0529e5eaf9cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 009/102] fix: simplenosqldb: negative and non-array indices in
 filter paths

A negative index crashed the caller, and fields whose names are numbers
could not be queried.
---
 runtime/plugins/simplenosqldb/query/filter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..c336298 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -197,8 +197,14 @@ func (f *selectFilter) Apply(item any) bool {
 }
 
 func (f *index) Apply(item any) bool {
-	if a, isA := item.(bson.A); isA && f.i < len(a) {
-		return f.next.Apply(a[f.i])
+	switch v := item.(type) {
+	case bson.A:
+		if f.i >= 0 && f.i < len(v) {
+			return f.next.Apply(v[f.i])
+		}
+	case bson.D:
+		// A number can also be the name of a field
+		return Select(strconv.Itoa(f.i), f.next).Apply(v)
 	}
 	return false
 }
-- 
2.43.0


From 5a0bc20f74f08efbe916e3389ef05412f9ea7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 010/102] fix: simplenosqldb: $exists, $ne, $all, $elemMatch
 and combined operators

$exists: false ignored its field and $exists: true was refused; $ne missed
documents without the field and matched arrays containing the value; $all
without values matched every array and did not match single values or values
spread over an array of documents; $elemMatch matched non-arrays; and several
operators on one field had to be satisfied by the same array element.
---
 runtime/plugins/simplenosqldb/query/filter.go |  3 +
 .../simplenosqldb/query/parsefilter.go        | 57 ++++++++++++-------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index c336298..0b93a50 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -333,6 +333,9 @@ func (f *elemMatch) Apply(item any) bool {
 
 outer:
 	for _, e := range a {
+		if _, isD := e.(bson.D); !isD {
+			continue
+		}
 		for _, query := range f.queries {
 			if !query.Apply(e) {
 				continue outer
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 1ecafc6..732ec44 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -167,16 +167,38 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 				return Lookup(e.Key, Broadcast(filter)), err
 			}
 
-			// Array operators can't mix with regular value operators
-			if filter, err := parseArrayOperators(v); err != nil || filter != nil {
-				return Lookup(e.Key, filter), err
+			// If there are multiple operators, then each must match by itself
+			if len(v) > 1 {
+				var filters []Filter
+				for _, op := range v {
+					if !strings.HasPrefix(op.Key, "$") {
+						return nil, errors.Errorf("invalid mix of operators and values %v", v)
+					}
+					filter, err := parseFilterCondition(bson.E{Key: e.Key, Value: bson.D{op}})
+					if err != nil {
+						return nil, err
+					}
+					filters = append(filters, filter)
+				}
+				return And(filters...), nil
 			}
 
-			// $exists: false is a special case
+			// Array operators
+			if filter, err := parseArrayOperators(e.Key, v); err != nil || filter != nil {
+				return filter, err
+			}
+
+			// $exists is a special case because it can match documents without the field
 			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
 				return filter, err
 			}
 
+			// $ne too, and no element of an array may have the value
+			if v[0].Key == "$ne" {
+				filter, err := parseValue(v[0].Value)
+				return Not(Lookup(e.Key, Broadcast(filter))), err
+			}
+
 			// We have regular value operators
 			filter, err := parseValueOperators(v)
 			return Lookup(e.Key, Broadcast(filter)), err
@@ -249,10 +271,10 @@ $all, $elemMatch, $size
 If anything is found in the document that does not match these,
 this will return nil.
 */
-func parseArrayOperators(d bson.D) (Filter, error) {
+func parseArrayOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-		filter, err := parseArrayOperator(e)
+		filter, err := parseArrayOperator(key, e)
 		if err != nil {
 			return nil, err
 		}
@@ -270,7 +292,7 @@ func parseArrayOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseArrayOperator(e bson.E) (Filter, error) {
+func parseArrayOperator(key string, e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$all":
 		{
@@ -284,9 +306,12 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				if err != nil {
 					return nil, err
 				}
-				valuefilters = append(valuefilters, valuefilter)
+				valuefilters = append(valuefilters, Lookup(key, Broadcast(valuefilter)))
+			}
+			if len(valuefilters) == 0 {
+				return &or{}, nil // matches nothing
 			}
-			return All(valuefilters...), nil
+			return And(valuefilters...), nil
 		}
 	case "$elemMatch":
 		{
@@ -295,23 +320,22 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
+			return Lookup(key, ElemMatch(filter)), err
 		}
 	case "$size":
 	}
 	return nil, nil
 }
 
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
+// Parses $exists operators
 func parseExistsOperators(key string, d bson.D) (Filter, error) {
 	for _, e := range d {
 		if e.Key == "$exists" {
 			if v, isBool := e.Value.(bool); isBool {
 				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
+					return Not(Lookup(key, Exists())), nil
 				} else {
-					return nil, nil
+					return Lookup(key, Exists()), nil
 				}
 			} else {
 				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
@@ -346,11 +370,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$eq":
 		return parseValue(e.Value)
-	case "$ne":
-		{
-			f, err := parseValue(e.Value)
-			return Not(f), err
-		}
 	case "$in":
 		{
 			v := reflect.ValueOf(e.Value)
-- 
2.43.0


From 12fba9e5c3b47f2b720d2f063e438271d339c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 011/102] fix: simplenosqldb: compare numbers by value whatever
 their types

An integer in a filter did not match an equal or comparable float.
---
 runtime/plugins/simplenosqldb/query/filter.go | 61 ++++++++++---------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 0b93a50..082b0dd 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -2,6 +2,8 @@ package query
 
 import (
 	"fmt"
+	"math"
+	"math/big"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -227,41 +229,44 @@ func (f *equals) Apply(item any) bool {
 }
 
 func (f *cmpInt) Apply(item any) bool {
-	if v, isInt := intValue(item); isInt {
-		switch f.cmp {
-		case Eq:
-			return v == f.value
-		case Gt:
-			return v > f.value
-		case Gte:
-			return v >= f.value
-		case Lt:
-			return v < f.value
-		case Lte:
-			return v <= f.value
-		}
-	}
-	return false
+	return compareNumbers(item, f.value, f.cmp)
 }
 
 func (f *cmpFloat) Apply(item any) bool {
-	if v, isFloat := floatValue(item); isFloat {
-		switch f.cmp {
-		case Eq:
-			return v == f.value
-		case Gt:
-			return v > f.value
-		case Gte:
-			return v >= f.value
-		case Lt:
-			return v < f.value
-		case Lte:
-			return v <= f.value
-		}
+	return compareNumbers(item, f.value, f.cmp)
+}
+
+// Compares two numbers by value, regardless of their types and without loss of precision
+func compareNumbers(item any, value any, cmp CmpType) bool {
+	v, isNumber := numberValue(item)
+	w, _ := numberValue(value)
+	if !isNumber || w == nil {
+		return false
+	}
+	switch c := v.Cmp(w); cmp {
+	case Eq:
+		return c == 0
+	case Gt:
+		return c > 0
+	case Gte:
+		return c >= 0
+	case Lt:
+		return c < 0
+	case Lte:
+		return c <= 0
 	}
 	return false
 }
 
+func numberValue(item any) (*big.Float, bool) {
+	if i, isInt := intValue(item); isInt {
+		return new(big.Float).SetInt64(i), true
+	} else if f, isFloat := floatValue(item); isFloat && !math.IsNaN(f) {
+		return big.NewFloat(f), true
+	}
+	return nil, false
+}
+
 func (f *and) Apply(item any) bool {
 	for _, filter := range f.filters {
 		if !filter.Apply(item) {
-- 
2.43.0


From 634f594cb126d85f21f71f11a6f9390004ed4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 012/102] fix: simplenosqldb: filters with structs, slices,
 times, unsigned and named types

They never matched, because stored documents hold decoded BSON values.
---
 .../simplenosqldb/query/parsefilter.go        | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 732ec44..7a4f0c7 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -97,10 +97,32 @@ func parseValue(value any) (Filter, error) {
 	case bson.M:
 		return nil, errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.M found in %v", v)
 	default:
-		return Equals(v), nil
+		stored, err := storedValue(v)
+		if err != nil {
+			return nil, err
+		}
+		switch stored.(type) {
+		case bson.D, bson.A:
+			return parseValue(stored)
+		}
+		return Equals(stored), nil
 	}
 }
 
+// Stored values only have the types that BSON values are decoded into, so that is what the values
+// they are compared with must have, e.g. for time.Time, unsigned integers, and named types.
+func storedValue(value any) (any, error) {
+	stored, err := bson.Marshal(bson.D{{Key: "v", Value: value}})
+	if err != nil {
+		return nil, err
+	}
+	var d bson.D
+	if err := bson.Unmarshal(stored, &d); err != nil {
+		return nil, err
+	}
+	return d[0].Value, nil
+}
+
 func parseArrayValues(a bson.A) (Filter, error) {
 	/* All elements of the array must match exactly */
 	var arrayFilters []Filter
@@ -128,7 +150,11 @@ func parseArrayValues(a bson.A) (Filter, error) {
 		case bson.M:
 			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.M found in %v", v)
 		default:
-			arrayFilters = append(arrayFilters, Index(i, Equals(v)))
+			filter, err := parseValue(v)
+			if err != nil {
+				return nil, err
+			}
+			arrayFilters = append(arrayFilters, Index(i, filter))
 		}
 	}
 	return And(arrayFilters...), nil
@@ -214,7 +240,8 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 	case bson.M:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.M")
 	default:
-		return Lookup(e.Key, Broadcast(Equals(v))), nil
+		filter, err := parseValue(v)
+		return Lookup(e.Key, Broadcast(filter)), err
 	}
 }
 
-- 
2.43.0


From a63ebacaed709c3c6924072708c096b287e67d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 013/102] fix: simplenosqldb: array values match equal arrays

They matched every array with that prefix, so an empty array matched anything,
but neither with $eq and $in nor within an array of arrays.
---
 runtime/plugins/simplenosqldb/query/filter.go | 21 ++++++++++++++++---
 .../simplenosqldb/query/parsefilter.go        |  4 ++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 082b0dd..aada7ef 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -70,6 +70,10 @@ type (
 		fields map[string]struct{}
 	}
 
+	exactLength struct {
+		length int
+	}
+
 	regex struct {
 		re *regexp.Regexp
 	}
@@ -174,6 +178,10 @@ func ExactFieldMatch(fieldsSeen ...string) Filter {
 	return &exactFieldMatch{fields: lookup}
 }
 
+func ExactLength(length int) Filter {
+	return &exactLength{length: length}
+}
+
 func Regex(regex_string string) (Filter, error) {
 	re, err := regexp.Compile(regex_string)
 	return &regex{re: re}, err
@@ -218,10 +226,8 @@ func (f *broadcast) Apply(item any) bool {
 				return true
 			}
 		}
-		return false
-	} else {
-		return f.next.Apply(item)
 	}
+	return f.next.Apply(item)
 }
 
 func (f *equals) Apply(item any) bool {
@@ -307,6 +313,11 @@ func (f *exactFieldMatch) Apply(item any) bool {
 	return true
 }
 
+func (f *exactLength) Apply(item any) bool {
+	a, isA := item.(bson.A)
+	return isA && len(a) == f.length
+}
+
 func (f *regex) Apply(item any) bool {
 	strval, isStr := item.(string)
 	return isStr && f.re.MatchString(strval)
@@ -396,6 +407,10 @@ func (f *exactFieldMatch) String() string {
 	return fmt.Sprintf("ExactFieldMatch (%v)", strings.Join(fieldNames, ", "))
 }
 
+func (f *exactLength) String() string {
+	return fmt.Sprintf("ExactLength (%v)", f.length)
+}
+
 func (f *and) String() string {
 	var filterstrings []string
 	for _, filter := range f.filters {
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 7a4f0c7..f023f38 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -125,7 +125,7 @@ func storedValue(value any) (any, error) {
 
 func parseArrayValues(a bson.A) (Filter, error) {
 	/* All elements of the array must match exactly */
-	var arrayFilters []Filter
+	arrayFilters := []Filter{ExactLength(len(a))}
 	for i := range a {
 		switch v := a[i].(type) {
 		case bson.D:
@@ -233,7 +233,7 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 		{
 			// Exact match an array value
 			filter, err := parseArrayValues(v)
-			return Lookup(e.Key, filter), err
+			return Lookup(e.Key, Broadcast(filter)), err
 		}
 	case bson.E:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.E")
-- 
2.43.0


From b204485575809fae98657f0319ed1addd3ef29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 014/102] fix: simplenosqldb: embedded documents match field by
 field in order

---
 runtime/plugins/simplenosqldb/query/filter.go | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index aada7ef..c7f1cb9 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -67,7 +67,7 @@ type (
 	exists struct{}
 
 	exactFieldMatch struct {
-		fields map[string]struct{}
+		fields []string
 	}
 
 	exactLength struct {
@@ -171,11 +171,7 @@ func Exists() Filter {
 }
 
 func ExactFieldMatch(fieldsSeen ...string) Filter {
-	lookup := make(map[string]struct{})
-	for _, fieldName := range fieldsSeen {
-		lookup[fieldName] = struct{}{}
-	}
-	return &exactFieldMatch{fields: lookup}
+	return &exactFieldMatch{fields: fieldsSeen}
 }
 
 func ExactLength(length int) Filter {
@@ -301,12 +297,12 @@ func (f *exists) Apply(item any) bool {
 
 func (f *exactFieldMatch) Apply(item any) bool {
 	d, isD := item.(bson.D)
-	if !isD {
+	if !isD || len(d) != len(f.fields) {
 		return false
 	}
 
-	for _, e := range d {
-		if _, seen := f.fields[e.Key]; !seen {
+	for i, e := range d {
+		if f.fields[i] != e.Key {
 			return false
 		}
 	}
@@ -400,11 +396,7 @@ func (f *cmpFloat) String() string {
 }
 
 func (f *exactFieldMatch) String() string {
-	var fieldNames []string
-	for fieldName := range f.fields {
-		fieldNames = append(fieldNames, fieldName)
-	}
-	return fmt.Sprintf("ExactFieldMatch (%v)", strings.Join(fieldNames, ", "))
+	return fmt.Sprintf("ExactFieldMatch (%v)", strings.Join(f.fields, ", "))
 }
 
 func (f *exactLength) String() string {
-- 
2.43.0


From e31c98df68bd79c3f23932ebd707cb4fc8cecab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 015/102] fix: simplenosqldb: null matches documents that do
 not have the field

---
 runtime/plugins/simplenosqldb/query/filter.go  | 18 ++++++++++++++++--
 .../plugins/simplenosqldb/query/parsefilter.go |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index c7f1cb9..bdfa861 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -70,6 +70,9 @@ type (
 		fields []string
 	}
 
+	// The value of a field that a document does not have; it equals null but does not exist
+	missing struct{}
+
 	exactLength struct {
 		length int
 	}
@@ -199,7 +202,10 @@ func (f *selectFilter) Apply(item any) bool {
 			}
 		}
 	}
-	return false
+	if _, isA := item.(bson.A); isA {
+		return false
+	}
+	return f.next.Apply(missing{})
 }
 
 func (f *index) Apply(item any) bool {
@@ -217,7 +223,11 @@ func (f *index) Apply(item any) bool {
 
 func (f *broadcast) Apply(item any) bool {
 	if a, isA := item.(bson.A); isA {
+		_, isSelect := f.next.(*selectFilter)
 		for _, e := range a {
+			if _, isD := e.(bson.D); isSelect && !isD {
+				continue
+			}
 			if f.next.Apply(e) {
 				return true
 			}
@@ -227,6 +237,9 @@ func (f *broadcast) Apply(item any) bool {
 }
 
 func (f *equals) Apply(item any) bool {
+	if _, isMissing := item.(missing); isMissing {
+		return f.value == nil
+	}
 	return reflect.DeepEqual(item, f.value)
 }
 
@@ -292,7 +305,8 @@ func (f *not) Apply(item any) bool {
 }
 
 func (f *exists) Apply(item any) bool {
-	return true
+	_, isMissing := item.(missing)
+	return !isMissing
 }
 
 func (f *exactFieldMatch) Apply(item any) bool {
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index f023f38..b349d6c 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -412,7 +412,7 @@ func parseValueOperator(e bson.E) (Filter, error) {
 				filters = append(filters, filter)
 			}
 			if len(filters) == 0 {
-				return Not(Exists()), nil
+				return &or{}, nil // matches nothing
 			}
 			return Or(filters...), nil
 		}
-- 
2.43.0


From c3966d8335af576f57f35a629c21c283433811c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 016/102] fix: simplenosqldb: store copies of inserted
 documents

An inserted bson.D was stored as is: it stayed shared with the caller and held
values of types that stored documents otherwise never have.
---
 runtime/plugins/simplenosqldb/nosqldb.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..ea07986 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -97,13 +97,10 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
+	// Always convert, so that the stored document is a copy that only has decoded BSON values
+	d, err := toBson(document)
+	if err != nil {
+		return err
 	}
 	hasId := false
 	for _, e := range d {
-- 
2.43.0


From 1009c6a92d381618ae1123ec160dc1180fa02f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 017/102] fix: simplenosqldb: update paths through arrays and
 absent, null and numeric fields

Setting an array element discarded the elements after it or exposed stale
ones, and negative or huge indices crashed. An absent array-like path became
an array instead of a document, null was treated as absent, $pull created the
field it should leave absent, and $unset failed where there is nothing to unset.
---
 runtime/plugins/simplenosqldb/query/filter.go | 10 ++-
 .../simplenosqldb/query/parseupdate.go        |  2 +-
 runtime/plugins/simplenosqldb/query/update.go | 70 ++++++++++++-------
 3 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index bdfa861..60a8f1a 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -101,7 +101,7 @@ const (
 func Lookup(selector string, next Filter) Filter {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
 			next = Index(j, next)
 		} else {
 			next = Select(splits[i], next)
@@ -113,6 +113,12 @@ func Lookup(selector string, next Filter) Filter {
 	return next
 }
 
+// Only non-negative decimal numbers can be indices; anything else is the name of a field
+func arrayIndex(fieldName string) (int, bool) {
+	i, err := strconv.Atoi(fieldName)
+	return i, err == nil && i >= 0 && strconv.Itoa(i) == fieldName
+}
+
 func Select(fieldName string, next Filter) Filter {
 	return &selectFilter{fieldName: fieldName, next: next}
 }
@@ -211,7 +217,7 @@ func (f *selectFilter) Apply(item any) bool {
 func (f *index) Apply(item any) bool {
 	switch v := item.(type) {
 	case bson.A:
-		if f.i >= 0 && f.i < len(v) {
+		if f.i < len(v) {
 			return f.next.Apply(v[f.i])
 		}
 	case bson.D:
diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..3038c3d 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -206,7 +206,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, UpdateExistingPath(e.Key, update))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..bee0573 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -109,10 +109,13 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 	return &updateindex{index: index, update: update, createIfAbsent: createIfAbsent}
 }
 
+// Arrays are not extended by more elements than this at once
+const maxPadding = 1500000
+
 func UpdatePath(selector string, update Update) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
 			update = UpdateIndex(j, update, true)
 		} else {
 			update = UpdateField(splits[i], update, true)
@@ -128,14 +131,23 @@ func UnsetPath(selector string) Update {
 	splits := strings.Split(selector, ".")
 
 	var update Update
-	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil {
+	if i, isIndex := arrayIndex(splits[len(splits)-1]); isIndex {
 		update = UnsetElement(i)
 	} else {
 		update = UnsetField(splits[len(splits)-1])
 	}
 
-	for i := len(splits) - 2; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+	return existingPath(splits[:len(splits)-1], update)
+}
+
+// Applies an update that has no effect on documents that don't have the field
+func UpdateExistingPath(selector string, update Update) Update {
+	return existingPath(strings.Split(selector, "."), update)
+}
+
+func existingPath(splits []string, update Update) Update {
+	for i := len(splits) - 1; i >= 0; i-- {
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
 			update = UpdateIndex(j, update, false)
 		} else {
 			update = UpdateField(splits[i], update, false)
@@ -198,7 +210,7 @@ func (p *push) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
+	if _, isMissing := itemVal.(missing); isMissing {
 		itemVal = bson.A{}
 	}
 
@@ -223,7 +235,7 @@ func (p *addtoset) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
+	if _, isMissing := itemVal.(missing); isMissing {
 		itemVal = bson.A{}
 	}
 
@@ -249,10 +261,6 @@ func (p *pull) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
-		itemVal = bson.A{}
-	}
-
 	a, isA := itemVal.(bson.A)
 	if !isA {
 		return errors.Errorf("pull expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
@@ -282,9 +290,10 @@ func (u *unsetfield) Apply(itemRef any) error {
 		return err
 	}
 
+	// Nothing to do for anything but documents
 	v, isD := itemVal.(bson.D)
 	if !isD {
-		return errors.Errorf("unsetfield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil
 	}
 
 	// See if the key exists within the document; if so remove it
@@ -303,9 +312,14 @@ func (u *unsetelement) Apply(itemRef any) error {
 		return err
 	}
 
+	if _, isD := itemVal.(bson.D); isD {
+		return UnsetField(strconv.Itoa(u.index)).Apply(itemRef)
+	}
+
+	// Nothing to do for anything but arrays
 	v, isA := itemVal.(bson.A)
 	if !isA {
-		return errors.Errorf("unsetelement expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil
 	}
 
 	// Ensure the slice length
@@ -321,7 +335,7 @@ func (i *incint) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
+	if _, isMissing := itemVal.(missing); isMissing {
 		itemVal = int64(0)
 	}
 
@@ -351,12 +365,15 @@ func (s *updatefield) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
+	if _, isMissing := itemVal.(missing); isMissing {
 		itemVal = bson.D{}
 	}
 
 	v, isD := itemVal.(bson.D)
 	if !isD {
+		if !s.createIfAbsent {
+			return nil
+		}
 		return errors.Errorf("updatefield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -371,7 +388,7 @@ func (s *updatefield) Apply(itemRef any) error {
 	if !s.createIfAbsent {
 		return nil
 	}
-	v = append(v, bson.E{Key: s.fieldName})
+	v = append(v, bson.E{Key: s.fieldName, Value: missing{}})
 	err = s.update.Apply(&v[len(v)-1].Value)
 	if err != nil {
 		return err
@@ -385,15 +402,17 @@ func (s *updateindex) Apply(itemRef any) error {
 		return err
 	}
 
-	if itemVal == nil {
-		if !s.createIfAbsent {
-			return nil
-		}
-		itemVal = bson.A{}
+	switch itemVal.(type) {
+	case bson.D, missing:
+		// Only an existing array has indices; otherwise the number is the name of a field
+		return UpdateField(strconv.Itoa(s.index), s.update, s.createIfAbsent).Apply(itemRef)
 	}
 
 	v, isA := itemVal.(bson.A)
 	if !isA {
+		if !s.createIfAbsent {
+			return nil
+		}
 		return errors.Errorf("updateindex expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -401,12 +420,15 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
+	if s.index-len(v) > maxPadding {
+		return errors.Errorf("updateindex cannot extend an array of length %v to index %v", len(v), s.index)
+	}
+	if len(v) <= s.index {
+		newv := make(bson.A, s.index+1)
+		copy(newv, v)
 		v = newv
+		v[s.index] = missing{}
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From fa0ec458516a9b7cbaea6701e8037ea5567b4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 018/102] fix: simplenosqldb: values of $set, $push, $addToSet,
 $pull and $inc

Null could not be set or pushed, $addToSet and $pull distinguished equal numbers
of different types, $pull missed times, structs and named types and pulled
non-documents by a condition on documents, and $inc overflowed silently.
---
 runtime/plugins/simplenosqldb/query/filter.go | 11 ++++
 .../simplenosqldb/query/parseupdate.go        |  3 +-
 runtime/plugins/simplenosqldb/query/update.go | 52 ++++++++++++++++---
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 60a8f1a..bd139b0 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -73,6 +73,8 @@ type (
 	// The value of a field that a document does not have; it equals null but does not exist
 	missing struct{}
 
+	isDocument struct{}
+
 	exactLength struct {
 		length int
 	}
@@ -329,6 +331,11 @@ func (f *exactFieldMatch) Apply(item any) bool {
 	return true
 }
 
+func (f *isDocument) Apply(item any) bool {
+	_, isD := item.(bson.D)
+	return isD
+}
+
 func (f *exactLength) Apply(item any) bool {
 	a, isA := item.(bson.A)
 	return isA && len(a) == f.length
@@ -419,6 +426,10 @@ func (f *exactFieldMatch) String() string {
 	return fmt.Sprintf("ExactFieldMatch (%v)", strings.Join(f.fields, ", "))
 }
 
+func (f *isDocument) String() string {
+	return "IsDocument"
+}
+
 func (f *exactLength) String() string {
 	return fmt.Sprintf("ExactLength (%v)", f.length)
 }
diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 3038c3d..3509360 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -195,8 +195,9 @@ func parsePull(args any) ([]Update, error) {
 		switch v := e.Value.(type) {
 		case bson.D:
 			filter, err = parseQuery(v)
+			filter = And(&isDocument{}, filter)
 		default:
-			filter = Equals(v)
+			filter, err = parseValue(v)
 		}
 		if err != nil {
 			return nil, err
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index bee0573..8e04a29 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -2,7 +2,9 @@ package query
 
 import (
 	"fmt"
+	"math"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -70,18 +72,26 @@ type (
 	}
 )
 
+// Like bson.MarshalValue, but also for null
+func marshalValue(value any) (bsontype.Type, []byte, error) {
+	if value == nil {
+		return bsontype.Null, nil, nil
+	}
+	return bson.MarshalValue(value)
+}
+
 func SetValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &set{t: t, value: v}, err
 }
 
 func PushValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &push{t: t, value: v}, err
 }
 
 func AddToSet(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &addtoset{t: t, value: v}, err
 }
 
@@ -193,7 +203,11 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
+	if v == nil {
+		dst_val.SetZero()
+	} else {
+		dst_val.Set(reflect.ValueOf(v))
+	}
 
 	return nil
 }
@@ -246,7 +260,7 @@ func (p *addtoset) Apply(itemRef any) error {
 
 	// Check if it exists
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if sameValue(v, a[i]) {
 			return nil
 		}
 	}
@@ -255,6 +269,21 @@ func (p *addtoset) Apply(itemRef any) error {
 	return backend.CopyResult(a, itemRef)
 }
 
+// Like [reflect.DeepEqual] on stored values, but numbers of different types can be the same
+func sameValue(v any, w any) bool {
+	switch v := v.(type) {
+	case bson.A:
+		w, isA := w.(bson.A)
+		return isA && slices.EqualFunc(v, w, sameValue)
+	case bson.D:
+		w, isD := w.(bson.D)
+		return isD && slices.EqualFunc(v, w, func(v, w bson.E) bool {
+			return v.Key == w.Key && sameValue(v.Value, w.Value)
+		})
+	}
+	return compareNumbers(v, w, Eq) || reflect.DeepEqual(v, w)
+}
+
 func (p *pull) Apply(itemRef any) error {
 	itemVal, err := backend.GetPointerValue(itemRef)
 	if err != nil {
@@ -345,8 +374,19 @@ func (i *incint) Apply(itemRef any) error {
 	case float32:
 		return backend.CopyResult(v+float32(i.amount), itemRef)
 	case int64:
-		return backend.CopyResult(v+i.amount, itemRef)
+		if sum := v + i.amount; (sum < v) == (i.amount < 0) {
+			return backend.CopyResult(sum, itemRef)
+		}
+		return errors.Errorf("incint unable to increment %v by %v", v, i.amount)
 	case int32:
+		// Becomes an int64 if necessary
+		if i.amount > math.MaxInt32-int64(v) || i.amount < math.MinInt32-int64(v) {
+			var wide any = int64(v)
+			if err := i.Apply(&wide); err != nil {
+				return err
+			}
+			return backend.CopyResult(wide, itemRef)
+		}
 		return backend.CopyResult(v+int32(i.amount), itemRef)
 	case int16:
 		return backend.CopyResult(v+int16(i.amount), itemRef)
-- 
2.43.0


From fd807c3906011784c298ad9c6bba1ecbbd7a9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 019/102] fix: simplenosqldb: invalid and conflicting update
 paths are errors

---
 .../simplenosqldb/query/parseupdate.go        | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 3509360..80020b2 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -8,7 +8,32 @@ import (
 	"go.mongodb.org/mongo-driver/bson"
 )
 
+// Checks that the paths that an update modifies are well-formed and don't overlap
+func validatePaths(update bson.D) error {
+	var paths []string
+	for _, op := range update {
+		args, _ := op.Value.(bson.D)
+		for _, e := range args {
+			for _, fieldName := range strings.Split(e.Key, ".") {
+				if fieldName == "" || strings.HasPrefix(fieldName, "$") {
+					return errors.Errorf("invalid path %q for %v", e.Key, op.Key)
+				}
+			}
+			for _, path := range paths {
+				if path == e.Key || strings.HasPrefix(path, e.Key+".") || strings.HasPrefix(e.Key, path+".") {
+					return errors.Errorf("updating the path %q conflicts with %q", e.Key, path)
+				}
+			}
+			paths = append(paths, e.Key)
+		}
+	}
+	return nil
+}
+
 func ParseUpdate(update bson.D) (Update, error) {
+	if err := validatePaths(update); err != nil {
+		return nil, err
+	}
 	var updates []Update
 	for _, op := range update {
 		switch op.Key {
-- 
2.43.0


From 00d9c1ec2668ae1d1027d4a5f4777b5e7bf8c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 020/102] fix: simplenosqldb: updates that fail have no effect,
 and results do not change

Updates modified stored documents in place, so an update that failed half way
through was half applied, and cursors saw later updates. Also, updates could
change or remove the _id of a document.
---
 runtime/plugins/simplenosqldb/nosqldb.go | 41 +++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index ea07986..e960f3e 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -237,7 +237,12 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			updated, err := applyUpdate(updateOp, db.items[i])
+			if err != nil {
+				return 0, err
+			}
+			db.items[i] = updated
+			return 1, nil
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -263,17 +268,18 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 	}
 
 	updated := 0
+	newitems := append([]bson.D{}, db.items...)
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("UPDATING: %v\n", db.items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			newitems[i], err = applyUpdate(updateOp, db.items[i])
 			if err != nil {
-				return updated, err
+				return 0, err
 			}
 			if verbose {
-				fmt.Printf("      --> %v\n", db.items[i])
+				fmt.Printf("      --> %v\n", newitems[i])
 			}
 			updated += 1
 		} else {
@@ -282,9 +288,36 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 			}
 		}
 	}
+	db.items = newitems
 	return updated, nil
 }
 
+// Returns an updated copy of the item.  The item itself is unchanged, because the update could fail
+// half way through, and because cursors might still refer to it.
+func applyUpdate(update query.Update, item bson.D) (bson.D, error) {
+	updated, err := toBson(item)
+	if err != nil {
+		return nil, err
+	}
+	if err := update.Apply(&updated); err != nil {
+		return nil, err
+	}
+	if !reflect.DeepEqual(getID(updated), getID(item)) {
+		return nil, errors.Errorf("updates must not modify _id")
+	}
+	return updated, nil
+}
+
+// Returns the value of _id, or nil if there is none
+func getID(d bson.D) any {
+	for _, e := range d {
+		if e.Key == "_id" {
+			return e.Value
+		}
+	}
+	return nil
+}
+
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
 	updatedCount, err := db.ReplaceOne(ctx, filter, document)
 	if updatedCount == 1 || err != nil {
-- 
2.43.0


From e77504f6925480a007d0be1ed51f76f6b266ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 021/102] fix: simplenosqldb: replacing a document keeps its
 _id

A replacement without _id lost the _id, or with UpsertID was inserted again and
again; one that cannot be stored erased the document; and ReplaceMany swallowed
errors of the filter.
---
 runtime/plugins/simplenosqldb/nosqldb.go | 45 ++++++++++++++++++++----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index e960f3e..5f76741 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -321,14 +321,23 @@ func getID(d bson.D) any {
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
 	updatedCount, err := db.ReplaceOne(ctx, filter, document)
 	if updatedCount == 1 || err != nil {
-		return true, err
+		return updatedCount == 1, err
 	}
 	return false, db.InsertOne(ctx, document)
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
 	filter := bson.D{{"_id", id}}
-	updated, err := db.Upsert(ctx, filter, document)
+	d, err := toBson(document)
+	if err != nil {
+		return false, err
+	}
+	if getID(d) == nil {
+		d = append(bson.D{{"_id", id}}, d...)
+	} else if getID(d) != any(id) {
+		return false, errors.Errorf("cannot upsert a document with _id %v as %v", getID(d), id)
+	}
+	updated, err := db.Upsert(ctx, filter, d)
 	if updated && verbose && err == nil {
 		fmt.Printf("Upsert replaced existing %v\n", id)
 	}
@@ -342,8 +351,12 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	}
 	for i, item := range db.items {
 		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+			replaced, err := replaceItem(item, replacement)
+			if err != nil {
+				return 0, err
+			}
+			db.items[i] = replaced
+			return 1, nil
 		}
 	}
 	return 0, nil
@@ -352,21 +365,39 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	updateCount := 0
+	newitems := append([]bson.D{}, db.items...)
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
 		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
+			newitems[i], err = replaceItem(db.items[i], replacements[updateCount])
 			if err != nil {
-				return updateCount, err
+				return 0, err
 			}
 			updateCount++
 		}
 	}
+	db.items = newitems
 	return updateCount, nil
 }
 
+// Returns the replacement of the item, which keeps the item's _id
+func replaceItem(item bson.D, replacement any) (bson.D, error) {
+	d, err := toBson(replacement)
+	if err != nil {
+		return nil, err
+	}
+	id := getID(d)
+	if id == nil {
+		return append(bson.D{{"_id", getID(item)}}, d...), nil
+	}
+	if !reflect.DeepEqual(id, getID(item)) {
+		return nil, errors.Errorf("cannot replace the document with _id %v by one with _id %v", getID(item), id)
+	}
+	return d, nil
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
-- 
2.43.0


From 2ab1df13882cd033da36edcf68cc151ae1cac5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 022/102] fix: simplenosqldb: make concurrent operations atomic

Collections and databases were accessed without synchronisation, so concurrent
inserts and updates could be lost.
---
 runtime/plugins/simplenosqldb/nosqldb.go | 42 ++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 5f76741..5bd2c19 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,11 +27,13 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mutex       sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
-		items []bson.D
+		mutex sync.RWMutex
+		items []bson.D // the documents are never modified, only replaced
 	}
 
 	SimpleCursor struct {
@@ -46,6 +49,9 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mutex.Lock()
+	defer impl.mutex.Unlock()
+
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -97,6 +103,12 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	return db.insertOne(document)
+}
+
+func (db *SimpleCollection) insertOne(document interface{}) error {
 	// Always convert, so that the stored document is a copy that only has decoded BSON values
 	d, err := toBson(document)
 	if err != nil {
@@ -136,6 +148,8 @@ func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projecti
 		fmt.Printf("---- FindOne\n%v\n", query)
 	}
 	cursor := &SimpleCursor{}
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
 	for _, item := range db.items {
 		if query.Apply(item) {
 			cursor.results = append(cursor.results, item)
@@ -166,6 +180,8 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 		fmt.Printf("---- FindMany\n%v\n", query)
 	}
 	cursor := &SimpleCursor{}
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
 	for _, item := range db.items {
 		if query.Apply(item) {
 			cursor.results = append(cursor.results, item)
@@ -186,6 +202,8 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	for i, item := range db.items {
 		if query.Apply(item) {
 			db.items = append(db.items[:i], db.items[i+1:]...)
@@ -200,6 +218,8 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	copyrangebegin := 0
 	newitems := make([]bson.D, 0, len(db.items))
 	for i, item := range db.items {
@@ -232,6 +252,8 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 		fmt.Printf("---- UpdateOne\n%v\n%v\n", filter, update)
 	}
 
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
@@ -267,6 +289,8 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 		fmt.Printf(" UPDATE: %v\n", updateOp)
 	}
 
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	updated := 0
 	newitems := append([]bson.D{}, db.items...)
 	for i := range db.items {
@@ -319,11 +343,13 @@ func getID(d bson.D) any {
 }
 
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	updatedCount, err := db.replaceOne(filter, document)
 	if updatedCount == 1 || err != nil {
 		return updatedCount == 1, err
 	}
-	return false, db.InsertOne(ctx, document)
+	return false, db.insertOne(document)
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -345,6 +371,12 @@ func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID,
 }
 
 func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, replacement interface{}) (int, error) {
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	return db.replaceOne(filter, replacement)
+}
+
+func (db *SimpleCollection) replaceOne(filter bson.D, replacement interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -367,6 +399,8 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	if err != nil {
 		return 0, err
 	}
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	updateCount := 0
 	newitems := append([]bson.D{}, db.items...)
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
@@ -417,6 +451,8 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From 1f69e55e62d7b35402bb9105c3279904c98b6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 023/102] fix: wiring alias cycles no longer make lookups loop
 forever

---
 blueprint/pkg/wiring/wiring.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..db5b93f 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -149,15 +149,16 @@ func (def *WiringDef) String() string {
 	return b.String()
 }
 
-func (spec *wiringSpecImpl) resolveAlias(alias string) string {
-	for {
+// Follows aliases until reaching a name that is not an alias.  Returns false if the aliases form a cycle.
+func (spec *wiringSpecImpl) resolveAlias(alias string) (string, bool) {
+	for i := 0; i <= len(spec.aliases); i++ {
 		name, is_alias := spec.aliases[alias]
-		if is_alias {
-			alias = name
-		} else {
-			return alias
+		if !is_alias {
+			return alias, true
 		}
+		alias = name
 	}
+	return alias, false
 }
 
 func (spec *wiringSpecImpl) getDef(name string, createIfAbsent bool) *WiringDef {
@@ -192,7 +193,10 @@ func (spec *wiringSpecImpl) Define(name string, nodeType any, build BuildFunc, o
 
 // Primarily for use by plugins to build nodes; this will recursively resolve any aliases until a def is reached
 func (spec *wiringSpecImpl) GetDef(name string) *WiringDef {
-	name = spec.resolveAlias(name)
+	name, ok := spec.resolveAlias(name)
+	if !ok {
+		return nil
+	}
 	return spec.getDef(name, false)
 }
 
-- 
2.43.0


From 4c15c30267b8860a8adfe8242b5a0ca1e529a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 024/102] fix: wiring properties of an alias belong to the node
 that it points to

---
 blueprint/pkg/wiring/wiring.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index db5b93f..ec498b4 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -30,6 +30,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/stringutil"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
@@ -227,20 +228,31 @@ func (spec *wiringSpecImpl) GetAlias(alias string) (string, bool) {
 
 // Sets a static value in the wiring spec, replacing any existing values for the specified key
 func (spec *wiringSpecImpl) SetProperty(name string, propKey string, propValue any) {
-	def := spec.getDef(name, true)
-	def.Properties[propKey] = []any{propValue}
-
+	if def := spec.getPropertyDef(name); def != nil {
+		def.Properties[propKey] = []any{propValue}
+	}
 }
 
 // Adds a static value to the wiring spec, appending it to any existing values for the specified key
 func (spec *wiringSpecImpl) AddProperty(name string, propKey string, propValue any) {
-	def := spec.getDef(name, true)
-	def.Properties[propKey] = append(def.Properties[propKey], propValue)
+	if def := spec.getPropertyDef(name); def != nil {
+		def.AddProperty(propKey, propValue)
+	}
+}
+
+// Gets or creates the def that holds the properties of name, which can be an alias
+func (spec *wiringSpecImpl) getPropertyDef(name string) *WiringDef {
+	resolved, ok := spec.resolveAlias(name)
+	if !ok {
+		spec.AddError(blueprint.Errorf("cannot set a property of %s because it is part of an alias cycle", name))
+		return nil
+	}
+	return spec.getDef(resolved, true)
 }
 
 // Primarily for use by plugins to get configuration values
 func (spec *wiringSpecImpl) GetProperty(name string, key string, dst any) error {
-	def := spec.getDef(name, false)
+	def := spec.GetDef(name)
 	if def != nil {
 		return def.GetProperty(key, dst)
 	}
@@ -249,7 +261,7 @@ func (spec *wiringSpecImpl) GetProperty(name string, key string, dst any) error
 
 // Primarily for use by plugins to get configuration values
 func (spec *wiringSpecImpl) GetProperties(name string, key string, dst any) error {
-	def := spec.getDef(name, false)
+	def := spec.GetDef(name)
 	if def != nil {
 		return def.GetProperties(key, dst)
 	}
-- 
2.43.0


From 4763f0d441d26dfa0c39af28fe4f6a130aa5f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 025/102] fix: reading a multi-valued wiring property as a
 single value is an error

---
 blueprint/pkg/wiring/wiring.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index ec498b4..49bd9e5 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -111,10 +111,13 @@ func (def *WiringDef) AddProperty(key string, value any) {
 
 func (def *WiringDef) GetProperty(key string, dst any) error {
 	vs := def.Properties[key]
-	if len(vs) == 1 {
-		return copyResult(vs[0], dst)
-	} else {
+	switch len(vs) {
+	case 0:
 		return setZero(dst)
+	case 1:
+		return copyResult(vs[0], dst)
+	default:
+		return blueprint.Errorf("expected a single value for property %s of %s but it has %d values", key, def.Name, len(vs))
 	}
 }
 
-- 
2.43.0


From 18621834d46c08c0373ccd4a9bae47bb48894876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 026/102] fix: copying a nil wiring property no longer panics

---
 blueprint/pkg/wiring/reflect.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blueprint/pkg/wiring/reflect.go b/blueprint/pkg/wiring/reflect.go
index 7b67f79..08210fc 100644
--- a/blueprint/pkg/wiring/reflect.go
+++ b/blueprint/pkg/wiring/reflect.go
@@ -27,6 +27,16 @@ func copyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is nil
+		switch dst_val.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
+			dst_val.SetZero()
+			return nil
+		}
+		return blueprint.Errorf("unable to copy nil to type %v", dst_val.Type())
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From 861cdb061f79ee5a6efdab2a31bf9ac930e969af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 027/102] fix: building an application reports the errors
 recorded in its wiring spec

---
 blueprint/pkg/wiring/application.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 758738e..7c91141 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -45,6 +45,11 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 		}, DeferOpts{Front: true})
 	}
 
+	// Don't build an invalid spec
+	if err := spec.Err(); err != nil {
+		return app, err
+	}
+
 	// Execute deferred functions until empty
 	for len(namespace.Deferred) > 0 {
 		next := namespace.Deferred[0]
-- 
2.43.0


From 8dcafe658aebd4b2a21a013a7a58fa55052b215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 028/102] fix: printing a wiring spec no longer exits for nodes
 without a pointer node type

---
 blueprint/pkg/wiring/wiring.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index 49bd9e5..50c1ba2 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -26,7 +26,6 @@ package wiring
 
 import (
 	"fmt"
-	"os"
 	"reflect"
 	"strings"
 
@@ -125,18 +124,24 @@ func (def *WiringDef) GetProperties(key string, dst any) error {
 	return copyResult(def.Properties[key], dst)
 }
 
+// Returns the name of the type of a nodeType, which can be nil if the node only has properties
+func typeName(nodeType any) string {
+	t := reflect.TypeOf(nodeType)
+	switch {
+	case t == nil:
+		return "nil"
+	case t.Kind() == reflect.Pointer:
+		return t.Elem().Name()
+	default:
+		return t.Name()
+	}
+}
+
 func (def *WiringDef) String() string {
-	defer func() {
-		if r := recover(); r != nil {
-			fmt.Printf("Panic while printing %v: %v\n", def.Name, r)
-			fmt.Println(def.NodeType)
-			os.Exit(1)
-		}
-	}()
 	var b strings.Builder
 	b.WriteString(def.Name)
 	b.WriteString(" = ")
-	b.WriteString(reflect.TypeOf(def.NodeType).Elem().Name())
+	b.WriteString(typeName(def.NodeType))
 	b.WriteString("(")
 	var propStrings []string
 	for propKey, values := range def.Properties {
-- 
2.43.0


From 6ec152f327dff27f54ffd89ed894276826ef3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 029/102] fix: a namespace reports the errors of its handler
 when adding nodes and edges

---
 blueprint/pkg/wiring/namespace.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..f3c4aae 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -199,7 +199,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if _, already_added := namespace.Added[node.Name()]; !already_added {
 			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
 				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
-				namespace.Handler.AddEdge(name, node)
+				if err := namespace.Handler.AddEdge(name, node); err != nil {
+					return err
+				}
 			}
 			namespace.Added[node.Name()] = true
 		}
@@ -222,7 +224,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 
 	if _, already_added := namespace.Added[node.Name()]; !already_added {
 		if !def.Options.ProxyNode {
-			namespace.Handler.AddNode(name, node)
+			if err := namespace.Handler.AddNode(name, node); err != nil {
+				return err
+			}
 		}
 		namespace.Added[node.Name()] = true
 	}
-- 
2.43.0


From 00807d4557bc50ee9e4e4e4d8c2bfa635c1840a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 030/102] fix: a namespace no longer caches a nil node for an
 alias that failed to build

---
 blueprint/pkg/wiring/namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index f3c4aae..c8a4e65 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -174,10 +174,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
 		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
 		if err != nil {
 			return err
 		}
+		namespace.Seen[name] = node
 		return copyResult(node, dst)
 	}
 
-- 
2.43.0


From 6cac364984f7996b6a033bd898e3d16365ae35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 031/102] fix: undefined nodes and build functions without a
 result are build errors, not panics

---
 blueprint/pkg/wiring/namespace.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index c8a4e65..047a5c2 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -163,6 +163,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		return err
 	}
 
+	if def.Build == nil {
+		return blueprint.Errorf("%s has properties but is never defined in the wiring spec of namespace %s", def.Name, namespace.NamespaceName)
+	}
+
 	// Track the defs being built
 	namespace.stack = append(namespace.stack, def)
 	defer func() {
@@ -221,6 +225,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Error("Unable to build %v: %s", name, err.Error())
 		return err
 	}
+	if node == nil {
+		return namespace.Error("Building %v did not return a node", name)
+	}
 
 	if _, already_added := namespace.Added[node.Name()]; !already_added {
 		if !def.Options.ProxyNode {
-- 
2.43.0


From f918151751b8e1a0c1320ad6caacb78a5ccc369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 032/102] fix: a node that depends on itself is a build error
 instead of endless recursion

---
 blueprint/pkg/wiring/namespace.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 047a5c2..ec45057 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -106,7 +106,8 @@ type namespaceimpl struct {
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
-	stack []*WiringDef // Used when building; the stack of wiring defs currently being built
+	stack    []*WiringDef    // Used when building; the stack of wiring defs currently being built
+	building map[string]bool // Names of the nodes currently being built, to detect cycles
 }
 
 // NamespaceHandler is an interface intended for use by any Blueprint plugin that wants to
@@ -173,6 +174,16 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.stack = namespace.stack[:len(namespace.stack)-1]
 	}()
 
+	// Detect nodes that depend on themselves
+	if namespace.building[name] {
+		return namespace.Error("%s depends on itself and cannot be built", name)
+	}
+	if namespace.building == nil {
+		namespace.building = make(map[string]bool)
+	}
+	namespace.building[name] = true
+	defer delete(namespace.building, name)
+
 	// If it's an alias, get the aliased node
 	if def.Name != name {
 		namespace.Info("Resolved %s to %s", name, def.Name)
-- 
2.43.0


From b113f6993c4680edc474fb73b9d11a58b5498a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 033/102] fix: putting a node that a namespace does not accept
 pushes it to the parent namespace

---
 blueprint/pkg/wiring/namespace.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index ec45057..90793c6 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -255,25 +255,33 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 
 // Implements [Namespace]
 func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
-	namespace.Seen[name] = node
+	if node == nil {
+		return namespace.Error("Cannot put nil node %v", name)
+	}
 
 	if namespace.Handler.Accepts(node) {
-		namespace.Handler.AddNode(name, node)
-		namespace.Info("%s of type %s added to namespace", name, reflect.TypeOf(node).Elem().Name())
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
+		}
+		namespace.Seen[name] = node
+		namespace.Info("%s of type %s added to namespace", name, reflect.TypeOf(node).String())
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
-		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
+	if namespace.ParentNamespace == nil {
+		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).String())
 	}
 
-	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace)
+	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).String(), namespace.ParentNamespace.Name())
 	err := namespace.ParentNamespace.Put(name, node)
 	if err != nil {
 		return err
 	}
-	namespace.Handler.AddEdge(name, node)
-	return err
+	if err := namespace.Handler.AddEdge(name, node); err != nil {
+		return err
+	}
+	namespace.Seen[name] = node
+	return nil
 }
 
 // Implements [Namespace]
-- 
2.43.0


From 790f71df56b2b1164bf3b1beddadba8e91875eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 034/102] fix: getting a node that was previously only
 instantiated adds the edge

---
 blueprint/pkg/wiring/namespace.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 90793c6..f27dcd5 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -192,7 +192,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		namespace.Seen[name] = node
+		if addEdge {
+			namespace.Seen[name] = node
+		}
 		return copyResult(node, dst)
 	}
 
@@ -211,9 +213,13 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
+		if !addEdge {
+			// Not a dependency of this namespace; a later Get must still add the edge
+			return copyResult(node, dst)
+		}
 		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
-				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
+				// Don't bother adding edges for metadata or proxy nodes
 				if err := namespace.Handler.AddEdge(name, node); err != nil {
 					return err
 				}
-- 
2.43.0


From 98213940ec97b18828dcbce8e2e1873f89f89977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 035/102] fix: building all nodes of a wiring spec does so in a
 fixed order

---
 blueprint/pkg/wiring/application.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 7c91141..84d5465 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -1,6 +1,8 @@
 package wiring
 
 import (
+	"sort"
+
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
@@ -33,6 +35,7 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 	// If no nodes were specified, then instead we will instantiate all defined nodes
 	if len(nodesToInstantiate) == 0 {
 		nodesToInstantiate = spec.Defs()
+		sort.Strings(nodesToInstantiate)
 	}
 
 	// Queue up the nodes to be built
-- 
2.43.0


From b4618d529d1af06790f22700a71d3d359043f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 036/102] fix: a failure to instantiate the server side of a
 pointer is reported

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From fe61ae3e073b06532bfcbdd9188d1f0576fd30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 037/102] fix: the workload namespace accepts its process,
 which it compared with the wrong name

---
 plugins/workload/wiring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/workload/wiring.go b/plugins/workload/wiring.go
index 6cf80a8..cb6afc5 100644
--- a/plugins/workload/wiring.go
+++ b/plugins/workload/wiring.go
@@ -158,8 +158,8 @@ func (w *wlgen) AddNode(name string, node ir.IRNode) error {
 	proc, isProcNode := node.(*goproc.Process)
 	if !isProcNode {
 		return blueprint.Errorf("Unexpected node %v = %v", name, node)
-	} else if proc.InstanceName != w.WorkloadName {
-		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.WorkloadName)
+	} else if proc.InstanceName != w.ProcName {
+		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.ProcName)
 	} else if w.ProcNode != nil {
 		return blueprint.Errorf("Unexpected duplicate workload proc %v", node)
 	} else {
-- 
2.43.0


From d8380aa08fd0cf1ce88b585a5cf82843101a5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 038/102] fix: redefining a wiring node does not keep the
 options of its previous definition

---
 blueprint/pkg/wiring/wiring.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index 50c1ba2..6d1eb2d 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -191,6 +191,7 @@ func (spec *wiringSpecImpl) Define(name string, nodeType any, build BuildFunc, o
 	def := spec.getDef(name, true)
 	def.NodeType = nodeType
 	def.Build = build
+	def.Options = WiringOpts{}
 	if len(options) > 0 {
 		def.Options = options[0]
 	}
-- 
2.43.0


From a57283bd27a46c4a3dffdce71ffbb62c8b2ebcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 039/102] fix: getting a node after getting a proxy of it adds
 the edge

---
 blueprint/pkg/wiring/namespace.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index f27dcd5..f198c47 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -217,8 +217,8 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 			// Not a dependency of this namespace; a later Get must still add the edge
 			return copyResult(node, dst)
 		}
-		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
+		if _, already_added := namespace.Added[node.Name()]; !already_added && !def.Options.ProxyNode {
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata {
 				// Don't bother adding edges for metadata or proxy nodes
 				if err := namespace.Handler.AddEdge(name, node); err != nil {
 					return err
@@ -246,11 +246,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		return namespace.Error("Building %v did not return a node", name)
 	}
 
-	if _, already_added := namespace.Added[node.Name()]; !already_added {
-		if !def.Options.ProxyNode {
-			if err := namespace.Handler.AddNode(name, node); err != nil {
-				return err
-			}
+	if _, already_added := namespace.Added[node.Name()]; !already_added && !def.Options.ProxyNode {
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
 		}
 		namespace.Added[node.Name()] = true
 	}
-- 
2.43.0


From 271e9a0569e5e56304da20da5cbace02be937397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 040/102] fix: port assignment does not hand out port 0 when it
 passes 65535

---
 blueprint/pkg/coreplugins/address/portassignment.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..a6f4498 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -1,6 +1,8 @@
 package address
 
 import (
+	"math"
+
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
@@ -69,6 +71,10 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 		if candidatePort == 0 {
 			candidatePort = 2000
 		}
+		if len(ports) == math.MaxUint16 {
+			err = blueprint.Errorf("no ports left to assign to %v", addr.Name())
+			return
+		}
 		for {
 			if _, alreadyAssigned := ports[candidatePort]; !alreadyAssigned {
 				addr.Port = candidatePort
@@ -76,6 +82,10 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 				break
 			}
 			candidatePort++
+			if candidatePort == 0 {
+				// Port 0 means unassigned; continue the search with the lowest valid port
+				candidatePort = 1
+			}
 		}
 	}
 
-- 
2.43.0


From c40603bc8788d54d25f2411e404ba7d50e84f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 041/102] fix: the generated environment does not contain ports
 beyond the valid range

---
 plugins/environment/wiring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index f298cdb..3f77413 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -57,6 +57,7 @@ package environment
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -64,6 +65,7 @@ import (
 
 	"golang.org/x/exp/slog"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
@@ -137,6 +139,9 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 		keys = append(keys, k)
 	}
 	sort.Strings(keys)
+	if port == 0 || int(port)+len(keys)-1 > math.MaxUint16 {
+		return blueprint.Errorf("cannot assign ports to %v addresses starting from port %v", len(keys), port)
+	}
 	for _, k := range keys {
 		addr := addrs[k]
 		if addr.bind != nil {
-- 
2.43.0


From 1277ab0d3dd078f7d4de7919253a12c83fec4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 042/102] fix: merging a sockshop cart with itself does not
 delete it

---
 examples/sockshop/workflow/cart/cartservice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index 0eb8fcf..01de93e 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -109,6 +109,11 @@ func (s *cartImpl) GetItem(ctx context.Context, customerID string, itemID string
 
 // MergeCarts implements CartService.
 func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID string) error {
+	if customerID == sessionID {
+		// A cart is already merged with itself
+		return nil
+	}
+
 	sessionCart, err := s.getCart(ctx, sessionID)
 	if err != nil {
 		return err
-- 
2.43.0


From 957436c771f6e770748b3cbbc617e52be4e9dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 043/102] fix: placing a sockshop order empties the ordered
 cart

---
 examples/sockshop/workflow/order/orderservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sockshop/workflow/order/orderservice.go b/examples/sockshop/workflow/order/orderservice.go
index 186621d..3f7eb11 100644
--- a/examples/sockshop/workflow/order/orderservice.go
+++ b/examples/sockshop/workflow/order/orderservice.go
@@ -199,7 +199,7 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 	}
 
 	// Delete the cart
-	return order, s.carts.DeleteCart(ctx, customerID)
+	return order, s.carts.DeleteCart(ctx, cartID)
 }
 
 func calculateTotal(items []cart.Item) float32 {
-- 
2.43.0


From 3537f01cbab656819c10d2238b759770e66f68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 044/102] fix: sockshop shipments are recorded before they are
 queued

---
 .../workflow/shipping/shippingservice.go        | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/examples/sockshop/workflow/shipping/shippingservice.go b/examples/sockshop/workflow/shipping/shippingservice.go
index 3c2ee7c..88cc54a 100644
--- a/examples/sockshop/workflow/shipping/shippingservice.go
+++ b/examples/sockshop/workflow/shipping/shippingservice.go
@@ -51,16 +51,21 @@ type shippingImpl struct {
 
 // PostShipping implements ShippingService.
 func (service *shippingImpl) PostShipping(ctx context.Context, shipment Shipment) (Shipment, error) {
+	// Insert into the shipment DB before the queue master can pull it from the queue
+	if err := service.db.InsertOne(ctx, shipment); err != nil {
+		return shipment, err
+	}
+
 	// Push to the queue to be shipped
 	shipped, err := service.q.Push(ctx, shipment)
+	if err == nil && !shipped {
+		err = errors.Errorf("Unable to submit shipment %v %v to the shipping queue", shipment.ID, shipment.Name)
+	}
 	if err != nil {
-		return shipment, err
-	} else if !shipped {
-		return shipment, errors.Errorf("Unable to submit shipment %v %v to the shipping queue", shipment.ID, shipment.Name)
+		// Not queued, so it will never be shipped.  Ignore any clean up error because the queue error takes precedence.
+		service.db.DeleteOne(ctx, bson.D{{"id", shipment.ID}})
 	}
-
-	// Insert into the shipment DB
-	return shipment, service.db.InsertOne(ctx, shipment)
+	return shipment, err
 }
 
 // GetShipment implements ShippingService.
-- 
2.43.0


From 600e26ece13827431993dc0495360f070798ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 045/102] fix: sockshop does not ship an order that it failed
 to record

---
 examples/sockshop/workflow/order/orderservice.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/examples/sockshop/workflow/order/orderservice.go b/examples/sockshop/workflow/order/orderservice.go
index 3f7eb11..4c55310 100644
--- a/examples/sockshop/workflow/order/orderservice.go
+++ b/examples/sockshop/workflow/order/orderservice.go
@@ -171,16 +171,11 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 		return Order{}, errors.Errorf("payment not authorized due to %v", auth.Message)
 	}
 
-	// Submit the shipment
 	shipment := shipping.Shipment{
 		ID:     uuid.NewString(),
 		Name:   customerID,
 		Status: "awaiting shipment",
 	}
-	shipment, err = s.shipping.PostShipping(ctx, shipment)
-	if err != nil {
-		return Order{}, err
-	}
 
 	// Save the order
 	order := Order{
@@ -198,6 +193,13 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 		return Order{}, err
 	}
 
+	// Submit the shipment
+	if _, err = s.shipping.PostShipping(ctx, shipment); err != nil {
+		// The order was not placed.  Ignore any clean up error because the shipping error takes precedence.
+		s.db.DeleteOne(ctx, bson.D{{"id", order.ID}})
+		return Order{}, err
+	}
+
 	// Delete the cart
 	return order, s.carts.DeleteCart(ctx, cartID)
 }
-- 
2.43.0


From c721645e5ea976183aa25db3a008f103697a981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 046/102] fix: sockshop refuses unknown users, addresses and
 cards instead of returning empty ones

---
 examples/sockshop/workflow/user/addressesdb.go | 5 ++++-
 examples/sockshop/workflow/user/cardsdb.go     | 5 ++++-
 examples/sockshop/workflow/user/userdb.go      | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/examples/sockshop/workflow/user/addressesdb.go b/examples/sockshop/workflow/user/addressesdb.go
index 2e55563..9463691 100644
--- a/examples/sockshop/workflow/user/addressesdb.go
+++ b/examples/sockshop/workflow/user/addressesdb.go
@@ -38,7 +38,10 @@ func (s *addressStore) getAddress(ctx context.Context, addressid string) (Addres
 		return Address{}, err
 	}
 	address := dbAddress{}
-	_, err = cursor.One(ctx, &address)
+	exists, err := cursor.One(ctx, &address)
+	if err == nil && !exists {
+		return Address{}, errors.New("unknown address " + addressid)
+	}
 
 	// Convert from DB address data to Address object
 	address.Address.ID = address.ID.Hex()
diff --git a/examples/sockshop/workflow/user/cardsdb.go b/examples/sockshop/workflow/user/cardsdb.go
index 8abeaea..cd794df 100644
--- a/examples/sockshop/workflow/user/cardsdb.go
+++ b/examples/sockshop/workflow/user/cardsdb.go
@@ -38,7 +38,10 @@ func (s *cardStore) getCard(ctx context.Context, cardid string) (Card, error) {
 		return Card{}, err
 	}
 	card := dbCard{}
-	_, err = cursor.One(ctx, &card)
+	exists, err := cursor.One(ctx, &card)
+	if err == nil && !exists {
+		return Card{}, errors.New("unknown card " + cardid)
+	}
 
 	// Convert from DB card data to Card object
 	card.Card.ID = card.ID.Hex()
diff --git a/examples/sockshop/workflow/user/userdb.go b/examples/sockshop/workflow/user/userdb.go
index 9e92ea3..9660054 100644
--- a/examples/sockshop/workflow/user/userdb.go
+++ b/examples/sockshop/workflow/user/userdb.go
@@ -112,8 +112,10 @@ func (s *userStore) getUser(ctx context.Context, userid string) (User, error) {
 
 	// Extract query result
 	u := dbUser{}
-	if _, err := cursor.One(ctx, &u); err != nil {
+	if exists, err := cursor.One(ctx, &u); err != nil {
 		return newUser(), err
+	} else if !exists {
+		return newUser(), errors.New("unknown user " + userid)
 	}
 
 	// Set the hex string IDs for the user, cards, and addresses before returning
-- 
2.43.0


From 556e21a617c7d3f1ed1dc9ce3418ea8c8e265d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 047/102] fix: merging sockshop carts does not lose quantities
 after appending an item

---
 examples/sockshop/workflow/cart/cartservice.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index 01de93e..17681fb 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -130,13 +130,8 @@ func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID
 
 	// Update quantity of existing items; append new items
 
-	customerCartItems := make(map[string]*Item)
-	for i := 0; i < len(customerCart.Items); i++ {
-		customerCartItems[customerCart.Items[i].ID] = &customerCart.Items[i]
-	}
-
 	for _, item := range sessionCart.Items {
-		if existing, exists := customerCartItems[item.ID]; exists {
+		if existing := findItem(customerCart, item.ID); existing != nil {
 			existing.Quantity += item.Quantity
 			existing.UnitPrice = item.UnitPrice
 		} else {
-- 
2.43.0


From 128544c25ec838e335d2b91776462c180c723947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 048/102] fix: applying a modifier to something that it cannot
 wrap is a build error

---
 plugins/circuitbreaker/wiring.go |  3 +--
 plugins/clientpool/wiring.go     |  4 ++--
 plugins/faultinjector/wiring.go  |  8 ++++----
 plugins/govector/wiring.go       |  4 ++--
 plugins/grpc/wiring.go           |  3 +--
 plugins/healthchecker/wiring.go  |  3 +--
 plugins/http/wiring.go           |  4 ++--
 plugins/latency/wiring.go        |  4 ++--
 plugins/opentelemetry/wiring.go  |  4 ++--
 plugins/retries/wiring.go        | 11 +++++------
 plugins/thrift/wiring.go         |  3 +--
 plugins/timeouts/wiring.go       |  4 ++--
 plugins/xtrace/wiring.go         |  4 ++--
 13 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/plugins/circuitbreaker/wiring.go b/plugins/circuitbreaker/wiring.go
index fc109cc..7ea3534 100644
--- a/plugins/circuitbreaker/wiring.go
+++ b/plugins/circuitbreaker/wiring.go
@@ -9,7 +9,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds circuit breaker functionality to all clients of the specified service.
@@ -24,7 +23,7 @@ func AddCircuitBreaker(spec wiring.WiringSpec, serviceName string, min_reqs int6
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a circuit breaker to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add a circuit breaker to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/clientpool/wiring.go b/plugins/clientpool/wiring.go
index 051d354..a83563c 100644
--- a/plugins/clientpool/wiring.go
+++ b/plugins/clientpool/wiring.go
@@ -27,11 +27,11 @@
 package clientpool
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Create can be used by wiring specs to add a clientpool to the client side of a service.
@@ -51,7 +51,7 @@ func Create(spec wiring.WiringSpec, serviceName string, numClients int) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to create clientpool for " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to create clientpool for %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/faultinjector/wiring.go b/plugins/faultinjector/wiring.go
index b18f68a..66835cc 100644
--- a/plugins/faultinjector/wiring.go
+++ b/plugins/faultinjector/wiring.go
@@ -2,8 +2,6 @@
 package faultinjector
 
 import (
-	"log/slog"
-
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
@@ -29,7 +27,8 @@ func AddRandomDelay(spec wiring.WiringSpec, serviceName string, maxDelay int64)
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add random delay node to " + serviceName)
+		spec.AddError(blueprint.Errorf("unable to add random delay node to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
@@ -60,7 +59,8 @@ func AddProbabilisticFailures(spec wiring.WiringSpec, serviceName string, probab
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add probabilistic failures node to " + serviceName)
+		spec.AddError(blueprint.Errorf("unable to add probabilistic failures node to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/govector/wiring.go b/plugins/govector/wiring.go
index ccf906f..3cfe37a 100644
--- a/plugins/govector/wiring.go
+++ b/plugins/govector/wiring.go
@@ -61,7 +61,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 // [Instrument] can be used by the wiring specs to instrument the client and server side of a service with govector-instrumentation to initialize, maintain, and propagate vector clocks.
@@ -77,7 +76,8 @@ func Instrument(spec wiring.WiringSpec, serviceName string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GoVector as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using GoVector as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
diff --git a/plugins/grpc/wiring.go b/plugins/grpc/wiring.go
index 15a8fb6..a2404a1 100644
--- a/plugins/grpc/wiring.go
+++ b/plugins/grpc/wiring.go
@@ -57,7 +57,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // [Deploy] can be used by wiring specs to deploy a workflow service using gRPC.
@@ -82,7 +81,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GRPC as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using GRPC as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/healthchecker/wiring.go b/plugins/healthchecker/wiring.go
index d845860..b21b40a 100644
--- a/plugins/healthchecker/wiring.go
+++ b/plugins/healthchecker/wiring.go
@@ -10,7 +10,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds a health check API to the server side implementation of the specified service.
@@ -40,7 +39,7 @@ func AddHealthCheckAPI(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add healthcheck API to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add healthcheck API to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/http/wiring.go b/plugins/http/wiring.go
index b2aa67d..a4efbbd 100644
--- a/plugins/http/wiring.go
+++ b/plugins/http/wiring.go
@@ -18,7 +18,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 //Deploys `serviceName` as a HTTP server.
@@ -42,7 +41,8 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using HTTP as it not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using HTTP as it is not a pointer", serviceName))
+		return
 	}
 
 	// Define the address that will be used by clients and the server
diff --git a/plugins/latency/wiring.go b/plugins/latency/wiring.go
index 1810f46..dce53f6 100644
--- a/plugins/latency/wiring.go
+++ b/plugins/latency/wiring.go
@@ -23,7 +23,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds fixed-amount of latency on the server side during request processing for the specified sevrice.
@@ -36,7 +35,8 @@ func AddFixed(spec wiring.WiringSpec, serviceName string, latency string) {
 	serverWrapper := serviceName + ".server.latency"
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a latencyinjector to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add a latencyinjector to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/opentelemetry/wiring.go b/plugins/opentelemetry/wiring.go
index 62ca1b3..30c1e28 100644
--- a/plugins/opentelemetry/wiring.go
+++ b/plugins/opentelemetry/wiring.go
@@ -53,12 +53,12 @@
 package opentelemetry
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 func instrument(spec wiring.WiringSpec, serviceName string, collectorName string, genClientSpan bool) {
@@ -69,7 +69,7 @@ func instrument(spec wiring.WiringSpec, serviceName string, collectorName string
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to instrument " + serviceName + " with OpenTelemetry as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to instrument %s with OpenTelemetry as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/retries/wiring.go b/plugins/retries/wiring.go
index 94e9e9e..f6cbc0e 100644
--- a/plugins/retries/wiring.go
+++ b/plugins/retries/wiring.go
@@ -20,7 +20,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_MAXRETRY = "Retry-Max"
@@ -42,7 +41,7 @@ func AddRetries(spec wiring.WiringSpec, serviceName string, max_retries int64) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -95,7 +94,7 @@ func AddRetriesWithFixedDelay(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -127,7 +126,7 @@ func AddRetriesWithExponentialBackoff(spec wiring.WiringSpec, serviceName string
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -158,7 +157,7 @@ func AddRetriesRetryRateLimit(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -189,7 +188,7 @@ func AddRetriesTokenBucket(spec wiring.WiringSpec, serviceName string, max_capac
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/thrift/wiring.go b/plugins/thrift/wiring.go
index d340542..dc9e468 100644
--- a/plugins/thrift/wiring.go
+++ b/plugins/thrift/wiring.go
@@ -22,7 +22,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Deploys `serviceName` as a Thrift server.
@@ -47,7 +46,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using Thrift as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using Thrift as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/timeouts/wiring.go b/plugins/timeouts/wiring.go
index 8d9577b..70a46e4 100644
--- a/plugins/timeouts/wiring.go
+++ b/plugins/timeouts/wiring.go
@@ -14,7 +14,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_TIMEOUT = "Timeout"
@@ -36,7 +35,8 @@ func Add(spec wiring.WiringSpec, serviceName string, timeout string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add timeouts to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add timeouts to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
diff --git a/plugins/xtrace/wiring.go b/plugins/xtrace/wiring.go
index 8eef81b..4b2362b 100644
--- a/plugins/xtrace/wiring.go
+++ b/plugins/xtrace/wiring.go
@@ -55,7 +55,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 var default_xtrace_server_name = "xtrace_server"
@@ -75,7 +74,8 @@ func Instrument(spec wiring.WiringSpec, serviceName string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using XTrace as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using XTrace as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
-- 
2.43.0


From 058ec51e26777d90cf5f8e52db2b5ba298924eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 049/102] Restore the example applications: commits here may
 not touch examples/

The defects that the removed commits repaired are listed as known findings in the verification repository.
---
 examples/sockshop/workflow/cart/cartservice.go  | 12 ++++++------
 .../sockshop/workflow/order/orderservice.go     | 14 ++++++--------
 .../workflow/shipping/shippingservice.go        | 17 ++++++-----------
 examples/sockshop/workflow/user/addressesdb.go  |  5 +----
 examples/sockshop/workflow/user/cardsdb.go      |  5 +----
 examples/sockshop/workflow/user/userdb.go       |  4 +---
 6 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index 17681fb..0eb8fcf 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -109,11 +109,6 @@ func (s *cartImpl) GetItem(ctx context.Context, customerID string, itemID string
 
 // MergeCarts implements CartService.
 func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID string) error {
-	if customerID == sessionID {
-		// A cart is already merged with itself
-		return nil
-	}
-
 	sessionCart, err := s.getCart(ctx, sessionID)
 	if err != nil {
 		return err
@@ -130,8 +125,13 @@ func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID
 
 	// Update quantity of existing items; append new items
 
+	customerCartItems := make(map[string]*Item)
+	for i := 0; i < len(customerCart.Items); i++ {
+		customerCartItems[customerCart.Items[i].ID] = &customerCart.Items[i]
+	}
+
 	for _, item := range sessionCart.Items {
-		if existing := findItem(customerCart, item.ID); existing != nil {
+		if existing, exists := customerCartItems[item.ID]; exists {
 			existing.Quantity += item.Quantity
 			existing.UnitPrice = item.UnitPrice
 		} else {
diff --git a/examples/sockshop/workflow/order/orderservice.go b/examples/sockshop/workflow/order/orderservice.go
index 4c55310..186621d 100644
--- a/examples/sockshop/workflow/order/orderservice.go
+++ b/examples/sockshop/workflow/order/orderservice.go
@@ -171,11 +171,16 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 		return Order{}, errors.Errorf("payment not authorized due to %v", auth.Message)
 	}
 
+	// Submit the shipment
 	shipment := shipping.Shipment{
 		ID:     uuid.NewString(),
 		Name:   customerID,
 		Status: "awaiting shipment",
 	}
+	shipment, err = s.shipping.PostShipping(ctx, shipment)
+	if err != nil {
+		return Order{}, err
+	}
 
 	// Save the order
 	order := Order{
@@ -193,15 +198,8 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 		return Order{}, err
 	}
 
-	// Submit the shipment
-	if _, err = s.shipping.PostShipping(ctx, shipment); err != nil {
-		// The order was not placed.  Ignore any clean up error because the shipping error takes precedence.
-		s.db.DeleteOne(ctx, bson.D{{"id", order.ID}})
-		return Order{}, err
-	}
-
 	// Delete the cart
-	return order, s.carts.DeleteCart(ctx, cartID)
+	return order, s.carts.DeleteCart(ctx, customerID)
 }
 
 func calculateTotal(items []cart.Item) float32 {
diff --git a/examples/sockshop/workflow/shipping/shippingservice.go b/examples/sockshop/workflow/shipping/shippingservice.go
index 88cc54a..3c2ee7c 100644
--- a/examples/sockshop/workflow/shipping/shippingservice.go
+++ b/examples/sockshop/workflow/shipping/shippingservice.go
@@ -51,21 +51,16 @@ type shippingImpl struct {
 
 // PostShipping implements ShippingService.
 func (service *shippingImpl) PostShipping(ctx context.Context, shipment Shipment) (Shipment, error) {
-	// Insert into the shipment DB before the queue master can pull it from the queue
-	if err := service.db.InsertOne(ctx, shipment); err != nil {
-		return shipment, err
-	}
-
 	// Push to the queue to be shipped
 	shipped, err := service.q.Push(ctx, shipment)
-	if err == nil && !shipped {
-		err = errors.Errorf("Unable to submit shipment %v %v to the shipping queue", shipment.ID, shipment.Name)
-	}
 	if err != nil {
-		// Not queued, so it will never be shipped.  Ignore any clean up error because the queue error takes precedence.
-		service.db.DeleteOne(ctx, bson.D{{"id", shipment.ID}})
+		return shipment, err
+	} else if !shipped {
+		return shipment, errors.Errorf("Unable to submit shipment %v %v to the shipping queue", shipment.ID, shipment.Name)
 	}
-	return shipment, err
+
+	// Insert into the shipment DB
+	return shipment, service.db.InsertOne(ctx, shipment)
 }
 
 // GetShipment implements ShippingService.
diff --git a/examples/sockshop/workflow/user/addressesdb.go b/examples/sockshop/workflow/user/addressesdb.go
index 9463691..2e55563 100644
--- a/examples/sockshop/workflow/user/addressesdb.go
+++ b/examples/sockshop/workflow/user/addressesdb.go
@@ -38,10 +38,7 @@ func (s *addressStore) getAddress(ctx context.Context, addressid string) (Addres
 		return Address{}, err
 	}
 	address := dbAddress{}
-	exists, err := cursor.One(ctx, &address)
-	if err == nil && !exists {
-		return Address{}, errors.New("unknown address " + addressid)
-	}
+	_, err = cursor.One(ctx, &address)
 
 	// Convert from DB address data to Address object
 	address.Address.ID = address.ID.Hex()
diff --git a/examples/sockshop/workflow/user/cardsdb.go b/examples/sockshop/workflow/user/cardsdb.go
index cd794df..8abeaea 100644
--- a/examples/sockshop/workflow/user/cardsdb.go
+++ b/examples/sockshop/workflow/user/cardsdb.go
@@ -38,10 +38,7 @@ func (s *cardStore) getCard(ctx context.Context, cardid string) (Card, error) {
 		return Card{}, err
 	}
 	card := dbCard{}
-	exists, err := cursor.One(ctx, &card)
-	if err == nil && !exists {
-		return Card{}, errors.New("unknown card " + cardid)
-	}
+	_, err = cursor.One(ctx, &card)
 
 	// Convert from DB card data to Card object
 	card.Card.ID = card.ID.Hex()
diff --git a/examples/sockshop/workflow/user/userdb.go b/examples/sockshop/workflow/user/userdb.go
index 9660054..9e92ea3 100644
--- a/examples/sockshop/workflow/user/userdb.go
+++ b/examples/sockshop/workflow/user/userdb.go
@@ -112,10 +112,8 @@ func (s *userStore) getUser(ctx context.Context, userid string) (User, error) {
 
 	// Extract query result
 	u := dbUser{}
-	if exists, err := cursor.One(ctx, &u); err != nil {
+	if _, err := cursor.One(ctx, &u); err != nil {
 		return newUser(), err
-	} else if !exists {
-		return newUser(), errors.New("unknown user " + userid)
 	}
 
 	// Set the hex string IDs for the user, cards, and addresses before returning
-- 
2.43.0


From 571877a4becf1c54d3cd4f87c0b054e51dca4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 050/102] fix: timed out calls leaked a goroutine that could
 overwrite the returned values

---
 plugins/timeouts/codegen.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..0345424 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -65,10 +65,18 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	// A reply that comes too late must neither block the goroutine nor touch the values that were returned
+	type timed_reply struct {
+		{{- range $i, $ret := $f.Returns}}
+		ret{{$i}} {{NameOf $ret.Type}}
+		{{- end}}
+		err error
+	}
+	is_complete := make(chan *timed_reply, 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		timed := &timed_reply{}
+		{{range $i, $_ := $f.Returns}}timed.ret{{$i}}, {{end}}timed.err = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		is_complete <- timed
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +84,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case timed := <-is_complete:
+		return {{range $i, $_ := $f.Returns}}timed.ret{{$i}}, {{end}}timed.err
 	}
 }
 {{end}}
-- 
2.43.0


From 05db2fe696761aaaed169501fa9ac653ae0520e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 051/102] fix: retries made no attempt for max_retries of 0,
 slept after the last attempt, and went on after the context ended

---
 plugins/retries/codegen.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..c58b544 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -160,10 +160,10 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		if err == nil {
+		if err == nil || ctx.Err() != nil {
 			return
 		}
 	}
@@ -200,13 +200,18 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		if err == nil {
+		if err == nil || ctx.Err() != nil || i+1 >= client.MaxTries {
+			return
+		}
+		select {
+		case <-time.After(client.Delay):
+			// Continue with next attempt
+		case <-ctx.Done():
 			return
 		}
-		time.Sleep(client.Delay)
 	}
 	return
 }
-- 
2.43.0


From 2b7baa3e2f82ac05fb68af15decfc64e6c02275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 052/102] fix: jitter of retries shared an unsynchronised
 source of randomness and panicked for tiny delays

---
 plugins/retries/codegen.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index c58b544..055d8bc 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -227,9 +227,6 @@ type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	Delay time.Duration
 	Limit time.Duration
-	{{if .UseJitter -}}
-	Rand *rand.Rand
-	{{- end}}
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -246,16 +243,12 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 	}
 	handler.Limit = parsed_limit
 	
-	{{if .UseJitter -}}
-	handler.Rand = rand.New(rand.NewSource(time.Now().UnixNano()))
-	{{- end}}
-
 	return handler, nil
 }
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
-	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
+	return d/2 + time.Duration(rand.Int63n(int64(d/2)+1))
 }
 {{end}}
 
-- 
2.43.0


From 4a11fa3e7b238b1b5023edba8f17fed4ab3ef5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 053/102] fix: rate-limited retries blocked forever without a
 limit, went on after the context ended, and raced on their tokens

---
 plugins/retries/codegen.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 055d8bc..acde043 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -86,7 +86,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		Imports:        gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "time", "sync")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
@@ -309,6 +309,7 @@ type {{.Name}} struct {
 	maxTokens float64
 	refillRate float64
 	lastRefill time.Time
+	mu sync.Mutex
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -327,6 +328,10 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 // waitForToken blocks until a token is available or context is cancelled
 func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		if client.acquireToken() {
 			return nil
 		}
@@ -343,6 +348,14 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+
+	// A rate of 0 means no limit
+	if client.refillRate <= 0 {
+		return true
+	}
+
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -386,6 +399,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 			}
 		} else {
 			err = waitErr
+			return
 		}
 	}
 
-- 
2.43.0


From fd27c50475b0d970591c0dd1faedfa035eb6c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 054/102] fix: concurrent calls raced on the token bucket of
 retries

---
 plugins/retries/codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index acde043..5e78282 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -107,7 +107,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		ReplenishAmt: replenish_amount,
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -416,6 +416,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	TokenBucket float64
+	mu sync.Mutex
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -433,16 +434,21 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
+		client.mu.Lock()
 		tb := client.TokenBucket
 		if tb - {{$node.RetryCost}} < 1.0 {
 			// Not enough tokens
+			client.mu.Unlock()
 			return
 		} else {
 			client.TokenBucket = tb - {{$node.RetryCost}}
+			client.mu.Unlock()
 			ctx = context.WithValue(ctx, "attempt_num", 2)
 			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 			if err == nil {
+				client.mu.Lock()
 				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
+				client.mu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From 71eaa40e5c491417560917640e6d4ae45875ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 055/102] fix: retries of services with the same interface
 overwrote each other's parameters

---
 plugins/retries/codegen.go | 21 +++++++++++----------
 plugins/retries/ir.go      | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 5e78282..51e4bc9 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
@@ -11,7 +12,7 @@ import (
 )
 
 // code generation function called from the ir.go file.
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
+func generateClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -20,7 +21,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierClient",
+		Name:    ir.CleanName(nodeName) + "_RetrierClient",
 		Max:     Max,
 		Imports: gogen.NewImports(pkg.Name),
 	}
@@ -30,7 +31,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	return generateClientCommon(&client, clientTemplate)
 }
 
-func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
+func generateExpBackoffClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -39,7 +40,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package:   pkg,
 		Service:   wrapped,
-		Name:      wrapped.BaseName + "_RetrierExpBackoffClient",
+		Name:      ir.CleanName(nodeName) + "_RetrierExpBackoffClient",
 		Imports:   gogen.NewImports(pkg.Name),
 		Delay:     delay,
 		Limit:     limit,
@@ -51,7 +52,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientExponentialBackoffTemplate)
 }
 
-func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
+func generateFixedDelayClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -60,7 +61,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierFixedDelayClient",
+		Name:    ir.CleanName(nodeName) + "_RetrierFixedDelayClient",
 		Imports: gogen.NewImports(pkg.Name),
 		Delay:   delay,
 		Max:     max_tries,
@@ -71,7 +72,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientFixedDelayTemplate)
 }
 
-func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
+func generateRateLimiterClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -80,7 +81,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:        pkg,
 		Service:        wrapped,
-		Name:           wrapped.BaseName + "_RetrierRateLimiterClient",
+		Name:           ir.CleanName(nodeName) + "_RetrierRateLimiterClient",
 		Max:            Max,
 		RetryRateLimit: RetryRateLimit,
 		Imports:        gogen.NewImports(pkg.Name),
@@ -91,7 +92,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
 
-func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
+func generateTokenBucketClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -100,7 +101,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:      pkg,
 		Service:      wrapped,
-		Name:         wrapped.BaseName + "_RetrierTokenBucketClient",
+		Name:         ir.CleanName(nodeName) + "_RetrierTokenBucketClient",
 		Imports:      gogen.NewImports(pkg.Name),
 		Capacity:     capacity,
 		RetryCost:    retry_cost,
diff --git a/plugins/retries/ir.go b/plugins/retries/ir.go
index 5eed3b9..8954600 100644
--- a/plugins/retries/ir.go
+++ b/plugins/retries/ir.go
@@ -67,7 +67,7 @@ func (node *RetrierClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Max)
+	return generateClient(builder, node.InstanceName, iface, node.outputPackage, node.Max)
 }
 
 func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -83,7 +83,7 @@ func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -152,7 +152,7 @@ func (node *RetrierFixedDelayClient) GenerateFuncs(builder golang.ModuleBuilder)
 		return err
 	}
 
-	return generateFixedDelayClient(builder, iface, node.outputPackage, node.Max, node.Delay)
+	return generateFixedDelayClient(builder, node.InstanceName, iface, node.outputPackage, node.Max, node.Delay)
 }
 
 func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -168,7 +168,7 @@ func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBu
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -239,7 +239,7 @@ func (node *RetrierExponentialBackoffClient) GenerateFuncs(builder golang.Module
 		return err
 	}
 
-	return generateExpBackoffClient(builder, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
+	return generateExpBackoffClient(builder, node.InstanceName, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
 }
 
 func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -255,7 +255,7 @@ func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.Nam
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -324,7 +324,7 @@ func (node *RetrierRateLimiterClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateRateLimiterClient(builder, iface, node.outputPackage, node.Max, node.RetryRateLimit)
+	return generateRateLimiterClient(builder, node.InstanceName, iface, node.outputPackage, node.Max, node.RetryRateLimit)
 }
 
 func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -340,7 +340,7 @@ func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -411,7 +411,7 @@ func (node *RetrierTokenBucketClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateTokenBucketClient(builder, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
+	return generateTokenBucketClient(builder, node.InstanceName, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
 }
 
 func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -427,7 +427,7 @@ func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From b28836cb22e1317f4b320f6cbaa1930b1e5f487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 056/102] fix: retries with backoff could try again although
 the context had ended

---
 plugins/retries/codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 51e4bc9..dff0a52 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -267,7 +267,7 @@ func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Conte
 			return
 		}
 
-		if delay >= client.Limit {
+		if delay >= client.Limit || ctx.Err() != nil {
 			return
 		}
 		
-- 
2.43.0


From 17f892b982b8c7991f0c2655ae90ba232f279a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 057/102] fix: modifiers of a load balancer were bypassed by
 its clients in the same process

---
 plugins/loadbalancer/wiring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/loadbalancer/wiring.go b/plugins/loadbalancer/wiring.go
index e339139..5e0be8a 100644
--- a/plugins/loadbalancer/wiring.go
+++ b/plugins/loadbalancer/wiring.go
@@ -55,7 +55,7 @@ func CreateLoadBalancer[ServiceType any](spec wiring.WiringSpec, serviceGroupNam
 	clientNext := ptr.AddSrcModifier(spec, clientName)
 	spec.Define(clientName, &dynamicLBClient{}, func(ns wiring.Namespace) (ir.IRNode, error) {
 		client := &dynamicLBClient{}
-		if err := initDynamicLBNode[ServiceType](&client.dynamicLBNode, balancerName); err != nil {
+		if err := initDynamicLBNode[ServiceType](&client.dynamicLBNode, clientName); err != nil {
 			return nil, err
 		}
 		return client, ns.Get(clientNext, &client.Wrapped)
-- 
2.43.0


From 9bf05421d3afd1cbbea5aab37dee6f2c299f75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 058/102] fix: a load balancer without replicas crashed the
 compiler

---
 plugins/loadbalancer/ir_balancer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/loadbalancer/ir_balancer.go b/plugins/loadbalancer/ir_balancer.go
index a1ae914..4910f67 100644
--- a/plugins/loadbalancer/ir_balancer.go
+++ b/plugins/loadbalancer/ir_balancer.go
@@ -67,6 +67,9 @@ func initDynamicLBNode[ServiceType any](n *dynamicLBNode, name string) error {
 }
 
 func (n *dynamicLBHandler) Init(arg_nodes []ir.IRNode) error {
+	if len(arg_nodes) == 0 {
+		return fmt.Errorf("load balancer %s needs at least one service", n.InstanceName)
+	}
 	clients := []golang.Service{}
 	for _, n := range arg_nodes {
 		if c, ok := n.(golang.Service); ok {
-- 
2.43.0


From 611664fb5ba5d7d3827ad6a2df57afba3b384139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 059/102] fix: an open circuit breaker did not admit calls
 again after its interval

---
 plugins/circuitbreaker/codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 698ce54..12a2813 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -70,6 +70,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 		circuitbreaker.WithFailOnContextCancel(true),
 		circuitbreaker.WithFailOnContextDeadline(true),
 		circuitbreaker.WithCounterResetInterval(dur),
+		circuitbreaker.WithOpenTimeout(dur),
 		circuitbreaker.WithTripFunc(circuitbreaker.NewTripFuncFailureRate(handler.MinReqs,handler.FailureRate)),
 	)
 	handler.cb = cb
-- 
2.43.0


From 7a1b4731837872d608efefa6e03f31b383bc5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 060/102] fix: circuit breakers of services with the same
 interface overwrote each other's parameters

---
 plugins/circuitbreaker/codegen.go | 9 +++++----
 plugins/circuitbreaker/ir.go      | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 12a2813..f0ea19f 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -4,13 +4,14 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
 	"golang.org/x/exp/slog"
 )
 
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
+func generateClient(builder golang.ModuleBuilder, nodeName string, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -19,7 +20,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package:     pkg,
 		Service:     wrapped,
-		Name:        wrapped.BaseName + "_CircuitBreakerClient",
+		Name:        ir.CleanName(nodeName) + "_CircuitBreakerClient",
 		MinReqs:     MinReqs,
 		FailureRate: FailureRate,
 		Interval:    Interval,
@@ -28,8 +29,8 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 
 	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"CircuitBreakerClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_CircuitBreakerClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, client.Name))
+	outputFile := filepath.Join(client.Package.Path, client.Name+".go")
 	return gogen.ExecuteTemplateToFile("CircuitBreaker", clientTemplate, client, outputFile)
 }
 
diff --git a/plugins/circuitbreaker/ir.go b/plugins/circuitbreaker/ir.go
index 21c06ce..0202a2b 100644
--- a/plugins/circuitbreaker/ir.go
+++ b/plugins/circuitbreaker/ir.go
@@ -71,7 +71,7 @@ func (node *CircuitBreakerClient) GenerateFuncs(builder golang.ModuleBuilder) er
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
+	return generateClient(builder, node.InstanceName, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
 }
 
 func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -87,7 +87,7 @@ func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuild
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From c3c67baf455b8643cba35699edb2c421fa555548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 061/102] fix: gRPC declares byte and rune fields with types
 that protoc knows

uint8 is not a protocol buffer type, so protoc rejected every service that uses byte or rune.
---
 plugins/grpc/grpccodegen/protogen.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..6c60018 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -326,8 +326,8 @@ var basicToGrpc = map[string]string{
 	"string": "string",
 	"int":    "sint64", "int8": "sint32", "int16": "sint32", "int32": "sint32", "int64": "sint64",
 	"uint": "uint64", "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
-	"byte":    "uint8",
-	"rune":    "uint8",
+	"byte":    "uint32",
+	"rune":    "sint32",
 	"float32": "float", "float64": "double",
 }
 
@@ -336,9 +336,8 @@ var grpcToBasic = map[string]string{
 	"string": "string",
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
-	"uint8":   "byte",
-	"float32": "float",
-	"float64": "double",
+	"float":  "float32",
+	"double": "float64",
 }
 
 var acceptableMapKeys map[string]struct{}
-- 
2.43.0


From 28c01eede820840fa2a4b1b83fc0edf679a60e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 062/102] fix: gRPC converts the elements of slices whose type
 differs on the wire

The generated code assigned []int to []int64 and did not compile.
---
 plugins/grpc/grpccodegen/marshallgen.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..4aee68f 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -161,6 +161,12 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
 					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
 			case *gocode.BasicType:
+				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
+					// The element types differ, so every element must be converted
+					return fmt.Sprintf(
+						"for _, v := range %s%s { msg.%s = append(msg.%s, %s(v)) }",
+						obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
+				}
 				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
@@ -219,6 +225,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		v.unmarshall(&%s%s[i])
 	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
 			case *gocode.BasicType:
+				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
+					return fmt.Sprintf(
+						"for _, v := range msg.%s { %s%s = append(%s%s, %v(v)) }",
+						strings.Title(f.Name), obj, f.Name, obj, f.Name, src.SliceOf), nil
+				}
 				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
-- 
2.43.0


From bc886fdb5091a2322ffa27537a0cb6bf6c9e79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 063/102] fix: gRPC delivers the entries of maps

Maps of structs arrived without their entries: the converted value was never stored. Maps of basic types arrived empty, since
unmarshall assigned in the wrong direction. Keys and values whose type differs on the wire were not converted.
---
 plugins/grpc/grpccodegen/marshallgen.go | 25 +++++++++++++++++++------
 plugins/grpc/grpccodegen/protogen.go    |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 4aee68f..0a8fe1d 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -144,11 +144,15 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 					return fmt.Sprintf(`
     msg.%s = make(map[%s]*%s)
 	for k, v := range %s%s {
-		msg.%s[k] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), vt.Name), nil
+		msg.%s[%s(k)] = new(%s).marshall(&v)
+	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    msg.%s = make(map[%s]%s)
+	for k, v := range %s%s {
+		msg.%s[%s(k)] = %s(v)
+	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -199,18 +203,27 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		}
 	case *gocode.Map:
 		{
+			src, isMap := f.SrcType.(*gocode.Map)
+			if !isMap {
+				return "", blueprint.Errorf("expected %v to be a map", f.SrcType)
+			}
 			switch t.ValueType.(type) {
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
     %s%s = make(%s)
 	for k, v := range msg.%s {
-		objv := %s%s[k]
+		var objv %s
 		v.unmarshall(&objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name), nil
+		%s%s[%v(k)] = objv
+	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), imports.NameOf(src.ValueType), obj, f.Name, src.KeyType), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    %s%s = make(%s)
+	for k, v := range msg.%s {
+		%s%s[%v(k)] = %v(v)
+	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, src.KeyType, src.ValueType), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 6c60018..3f73911 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -356,7 +356,7 @@ func getMapKeyType(t gocode.TypeName) (string, gocode.TypeName, bool) {
 	if basic, isBasic := t.(*gocode.BasicType); isBasic {
 		if grpcType, hasGrpcType := basicToGrpc[basic.Name]; hasGrpcType {
 			if _, isValid := acceptableMapKeys[grpcType]; isValid {
-				return grpcType, t, true
+				return grpcType, &gocode.BasicType{Name: grpcToBasic[grpcType]}, true
 			}
 		}
 	}
-- 
2.43.0


From c824a0271dbab8f063623ebc433bb72baf310d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 064/102] fix: gRPC carries pointers

The receiving side unmarshalled into a nil pointer and the sending side dereferenced nil pointers, so services with pointer
arguments, results or fields panicked. The code for pointers to basic types did not compile.
---
 plugins/grpc/grpccodegen/marshallgen.go | 20 ++++++++++++++++----
 plugins/grpc/grpccodegen/protogen.go    |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 0a8fe1d..eac26c9 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -129,9 +129,13 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf(
+					"if %s%s != nil { msg.%s = new(%s).marshall(%s%s) }",
+					obj, f.Name, strings.Title(f.Name), pt.Name, obj, f.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf(
+					"if %s%s != nil { v := %s(*%s%s); msg.%s = &v }",
+					obj, f.Name, pt.Name, obj, f.Name, strings.Title(f.Name)), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -192,11 +196,19 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		}
 	case *gocode.Pointer:
 		{
+			src, isPointer := f.SrcType.(*gocode.Pointer)
+			if !isPointer {
+				return "", blueprint.Errorf("expected %v to be a pointer", f.SrcType)
+			}
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s.unmarshall(%s%s)", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(
+					"if msg.%s != nil { %s%s = new(%s); msg.%s.unmarshall(%s%s) }",
+					strings.Title(f.Name), obj, f.Name, imports.NameOf(src.PointerTo), strings.Title(f.Name), obj, f.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+				return fmt.Sprintf(
+					"if msg.%s != nil { v := %v(*msg.%s); %s%s = &v }",
+					strings.Title(f.Name), src.PointerTo, strings.Title(f.Name), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 3f73911..f3b61c0 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -389,6 +389,10 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 				return "", nil, err
 			}
 			grpcType := &gocode.Pointer{PointerTo: pointerToGrpcType}
+			if _, isBasic := pointerToGrpcType.(*gocode.BasicType); isBasic {
+				// only an optional field can tell nil from the zero value
+				protoType = "optional " + protoType
+			}
 			return protoType, grpcType, nil
 		}
 	case *gocode.Map:
-- 
2.43.0


From 70ec5993b658ef35341a789152572b41df5148db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 065/102] fix: gRPC conversion code uses the field names that
 protoc-gen-go generates

Arguments and fields such as user_id, x1y or Reset have another name in the message struct, and the code did not compile.
---
 plugins/grpc/grpccodegen/marshallgen.go | 62 +++++++++++++++++--------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index eac26c9..fc98265 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -3,7 +3,6 @@ package grpccodegen
 import (
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -115,15 +114,40 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 	return t.Execute(f, args)
 }
 
+// The name that protoc-gen-go gives to the field in the GRPC message struct
+func (f *gRPCField) messageFieldName() string {
+	var b []byte
+	for i := 0; i < len(f.Name); i++ {
+		c := f.Name[i]
+		isLower := func(j int) bool { return j < len(f.Name) && 'a' <= f.Name[j] && f.Name[j] <= 'z' }
+		switch {
+		case c == '_' && (i == 0):
+			b = append(b, 'X') // an exported name has to start with a capital letter
+		case c == '_' && isLower(i+1):
+			// the underscore is dropped and the next letter is capitalized
+		case isLower(i) && (i == 0 || f.Name[i-1] == '_' || ('0' <= f.Name[i-1] && f.Name[i-1] <= '9')):
+			b = append(b, c-'a'+'A')
+		default:
+			b = append(b, c)
+		}
+	}
+	switch name := string(b); name {
+	case "Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor":
+		return name + "_" // would collide with a method of the message
+	default:
+		return name
+	}
+}
+
 func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg.%s = %s(%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.Pointer:
 		{
@@ -131,11 +155,11 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				return fmt.Sprintf(
 					"if %s%s != nil { msg.%s = new(%s).marshall(%s%s) }",
-					obj, f.Name, strings.Title(f.Name), pt.Name, obj, f.Name), nil
+					obj, f.Name, f.messageFieldName(), pt.Name, obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(
 					"if %s%s != nil { v := %s(*%s%s); msg.%s = &v }",
-					obj, f.Name, pt.Name, obj, f.Name, strings.Title(f.Name)), nil
+					obj, f.Name, pt.Name, obj, f.Name, f.messageFieldName()), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -149,14 +173,14 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
     msg.%s = make(map[%s]*%s)
 	for k, v := range %s%s {
 		msg.%s[%s(k)] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
+	}`, f.messageFieldName(), t.KeyType, vt.Name, obj, f.Name, f.messageFieldName(), t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
     msg.%s = make(map[%s]%s)
 	for k, v := range %s%s {
 		msg.%s[%s(k)] = %s(v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
+	}`, f.messageFieldName(), t.KeyType, vt.Name, obj, f.Name, f.messageFieldName(), t.KeyType, vt.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -167,15 +191,15 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				return fmt.Sprintf(
 					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
+					obj, f.Name, f.messageFieldName(), f.messageFieldName(), st.Name), nil
 			case *gocode.BasicType:
 				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
 					// The element types differ, so every element must be converted
 					return fmt.Sprintf(
 						"for _, v := range %s%s { msg.%s = append(msg.%s, %s(v)) }",
-						obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
+						obj, f.Name, f.messageFieldName(), f.messageFieldName(), st.Name), nil
 				}
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf("msg.%s = %s%s", f.messageFieldName(), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -188,11 +212,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", strings.Title(f.Name), obj, f.Name), nil
+			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", f.messageFieldName(), obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, f.messageFieldName()), nil
 		}
 	case *gocode.Pointer:
 		{
@@ -204,11 +228,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 			case *gocode.UserType:
 				return fmt.Sprintf(
 					"if msg.%s != nil { %s%s = new(%s); msg.%s.unmarshall(%s%s) }",
-					strings.Title(f.Name), obj, f.Name, imports.NameOf(src.PointerTo), strings.Title(f.Name), obj, f.Name), nil
+					f.messageFieldName(), obj, f.Name, imports.NameOf(src.PointerTo), f.messageFieldName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(
 					"if msg.%s != nil { v := %v(*msg.%s); %s%s = &v }",
-					strings.Title(f.Name), src.PointerTo, strings.Title(f.Name), obj, f.Name), nil
+					f.messageFieldName(), src.PointerTo, f.messageFieldName(), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -228,14 +252,14 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		var objv %s
 		v.unmarshall(&objv)
 		%s%s[%v(k)] = objv
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), imports.NameOf(src.ValueType), obj, f.Name, src.KeyType), nil
+	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), imports.NameOf(src.ValueType), obj, f.Name, src.KeyType), nil
 				}
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
     %s%s = make(%s)
 	for k, v := range msg.%s {
 		%s%s[%v(k)] = %v(v)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, src.KeyType, src.ValueType), nil
+	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), obj, f.Name, src.KeyType, src.ValueType), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
@@ -248,14 +272,14 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	%s%s = make(%s, len(msg.%s))
 	for i, v := range msg.%s {
 		v.unmarshall(&%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
+	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), f.messageFieldName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
 					return fmt.Sprintf(
 						"for _, v := range msg.%s { %s%s = append(%s%s, %v(v)) }",
-						strings.Title(f.Name), obj, f.Name, obj, f.Name, src.SliceOf), nil
+						f.messageFieldName(), obj, f.Name, obj, f.Name, src.SliceOf), nil
 				}
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, f.messageFieldName()), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
-- 
2.43.0


From 4f56680f6edd22d0d36c1fdc69bd7f2de3e69d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 066/102] fix: gRPC refuses structs with fields that it would
 drop

Embedded fields were silently left out of messages; unexported ones led to code that does not compile.
---
 plugins/grpc/grpccodegen/protogen.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index f3b61c0..9a355d8 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -2,6 +2,7 @@ package grpccodegen
 
 import (
 	"fmt"
+	"go/token"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -297,10 +298,14 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 	msg := b.newMessage(fmt.Sprintf("%v_%v", b.Name, t.Name))
 	b.Structs[*t] = msg
 	for _, field := range struc.FieldsList {
-		// We ignore promoted and anonymous struct / interface extensions
+		// Promoted and anonymous struct / interface extensions cannot be serialized
 		if _, isNamed := struc.Fields[field.Name]; !isNamed {
 			// TODO (not implemented yet): support promoted and anonymous, handle interfaces and promoted struct fields
-			continue
+			return nil, blueprint.Errorf("%v embeds %v, which GRPC would not transmit", t.String(), field.Type)
+		}
+
+		if !token.IsExported(field.Name) {
+			return nil, blueprint.Errorf("%v has the unexported field %v, which GRPC cannot transmit", t.String(), field.Name)
 		}
 
 		// Gets the type name of this field, possibly internally creating the GRPC message if it's a struct
-- 
2.43.0


From 7b1e21eed58d623fd353fd91565ad5252dddce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 067/102] fix: gRPC messages of same-named structs from
 different packages replaced each other

---
 plugins/grpc/grpccodegen/protogen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 9a355d8..bdade2f 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -295,7 +295,12 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 	}
 
 	// Create the message
-	msg := b.newMessage(fmt.Sprintf("%v_%v", b.Name, t.Name))
+	msgName := fmt.Sprintf("%v_%v", b.Name, t.Name)
+	for i := 2; b.Messages[msgName] != nil; i++ {
+		// A struct with the same name exists in a different package
+		msgName = fmt.Sprintf("%v_%v_%v", b.Name, t.Name, i)
+	}
+	msg := b.newMessage(msgName)
 	b.Structs[*t] = msg
 	for _, field := range struc.FieldsList {
 		// Promoted and anonymous struct / interface extensions cannot be serialized
-- 
2.43.0


From f78cbe21ca1e14a673c4170ed50bac6eaf2c887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 068/102] fix: gRPC and HTTP services whose arguments are named
 like the generated code's variables

Arguments named client, req, rsp, msg, w, r and so on, and services in a package named msg, led to code that does not
compile.
---
 plugins/grpc/grpccodegen/clientgen.go   | 14 ++---
 plugins/grpc/grpccodegen/marshallgen.go | 74 ++++++++++++-------------
 plugins/grpc/grpccodegen/servergen.go   | 14 ++---
 plugins/http/httpcodegen/clientgen.go   | 30 +++++-----
 plugins/http/httpcodegen/servergen.go   | 22 ++++----
 5 files changed, 77 insertions(+), 77 deletions(-)

diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index 681e33b..6ab3af8 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -78,17 +78,17 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{- range $_, $f := .Service.Methods }}
-func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
+func (client_ *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	// Create and marshall the GRPC Request object
-	req := &{{$service}}_{{$f.Name}}_Request{}
-	req.marshall({{ArgVars $f}})
+	req_ := &{{$service}}_{{$f.Name}}_Request{}
+	req_.marshall({{ArgVars $f}})
 
 	// Configure the client-side request timeout
-	ctx, cancel := context.WithTimeout(ctx, client.Timeout)
-	defer cancel()
+	ctx, cancel_ := context.WithTimeout(ctx, client_.Timeout)
+	defer cancel_()
 
 	// Make the remote call
-	rsp, err := client.Client.{{$f.Name}}(ctx, req)
+	rsp_, err := client_.Client.{{$f.Name}}(ctx, req_)
 	if err == nil {
 		err = ctx.Err()
 	}
@@ -96,7 +96,7 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 		return
 	}
 
-	{{RetVarsEquals $f}} rsp.unmarshall()
+	{{RetVarsEquals $f}} rsp_.unmarshall()
 	return
 }
 {{end}}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index fc98265..e84c715 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -19,17 +19,17 @@ package {{.Package}}
 {{ range $_1, $service := .Services -}}
 {{ range $_2, $method := $service.Methods -}}
 // Client-side function to pack {{$service.Name}}.{{$method.Name}} args into a GRPC {{$method.Request.GRPCType.Name}} struct
-func (msg *{{$method.Request.GRPCType.Name}}) marshall(
+func (msg_ *{{$method.Request.GRPCType.Name}}) marshall(
 	{{- range $j, $arg := $method.Request.FieldList}}{{if $j}}, {{end}}{{$arg.Name}} {{$imports.NameOf $arg.SrcType}}{{end -}}
 ) *{{$method.Request.GRPCType.Name}} {
 	{{- range $j, $arg := $method.Request.FieldList}}
 	{{$arg.Marshall $imports ""}}
 	{{- end}}
-	return msg
+	return msg_
 }
 
 // Server-side function to unpack {{$service.Name}}.{{$method.Name}} args from a GRPC {{$method.Request.GRPCType.Name}} struct
-func (msg *{{$method.Request.GRPCType.Name}}) unmarshall() (
+func (msg_ *{{$method.Request.GRPCType.Name}}) unmarshall() (
 	{{- range $j, $arg := $method.Request.FieldList}}{{if $j}}, {{end}}{{$arg.Name}} {{$imports.NameOf $arg.SrcType}}{{end -}}
 ) {
 	{{- range $j, $arg := $method.Request.FieldList}}
@@ -39,17 +39,17 @@ func (msg *{{$method.Request.GRPCType.Name}}) unmarshall() (
 }
 
 // Server-side function to pack {{$service.Name}}.{{$method.Name}} retvals into a GRPC {{$method.Response.GRPCType.Name}} struct
-func (msg *{{$method.Response.GRPCType.Name}}) marshall(
+func (msg_ *{{$method.Response.GRPCType.Name}}) marshall(
 	{{- range $j, $ret := $method.Response.FieldList}}{{if $j}}, {{end}}{{$ret.Name}} {{$imports.NameOf $ret.SrcType}}{{end -}}
 ) *{{$method.Response.GRPCType.Name}} {
 	{{- range $j, $ret := $method.Response.FieldList}}
 	{{$ret.Marshall $imports ""}}
 	{{- end}}
-	return msg
+	return msg_
 }
 
 // Client-side function to unpack {{$service.Name}}.{{$method.Name}} retvals from a GRPC {{$method.Response.GRPCType.Name}} struct
-func (msg *{{$method.Response.GRPCType.Name}}) unmarshall() (
+func (msg_ *{{$method.Response.GRPCType.Name}}) unmarshall() (
 	{{- range $j, $ret := $method.Response.FieldList}}{{if $j}}, {{end}}{{$ret.Name}} {{$imports.NameOf $ret.SrcType}}{{end -}}
 ) {
 	{{- range $j, $ret := $method.Response.FieldList}}
@@ -63,15 +63,15 @@ func (msg *{{$method.Response.GRPCType.Name}}) unmarshall() (
 
 {{ range $t, $struct := .Structs}}
 // Utility function to pack {{$imports.Qualify $t.Package $t.Name}} into a GRPC {{$struct.GRPCType.Name}} message
-func (msg *{{$struct.GRPCType.Name}}) marshall(obj *{{$imports.Qualify $t.Package $t.Name}}) *{{$struct.GRPCType.Name}} {
+func (msg_ *{{$struct.GRPCType.Name}}) marshall(obj *{{$imports.Qualify $t.Package $t.Name}}) *{{$struct.GRPCType.Name}} {
 	{{- range $j, $field := $struct.FieldList}}
 	{{$field.Marshall $imports "obj."}}
 	{{- end}}
-	return msg
+	return msg_
 }
 
 // Utility function to unpack {{$imports.Qualify $t.Package $t.Name}} from a GRPC {{$struct.GRPCType.Name}} message
-func (msg *{{$struct.GRPCType.Name}}) unmarshall(obj *{{$imports.Qualify $t.Package $t.Name}}) {
+func (msg_ *{{$struct.GRPCType.Name}}) unmarshall(obj *{{$imports.Qualify $t.Package $t.Name}}) {
 	{{- range $j, $field := $struct.FieldList}}
 	{{$field.Unmarshall $imports "obj."}}
 	{{- end}}
@@ -143,22 +143,22 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg_.%s = new(%s).marshall(&%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg_.%s = %s(%s%s)", f.messageFieldName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.Pointer:
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(
-					"if %s%s != nil { msg.%s = new(%s).marshall(%s%s) }",
+					"if %s%s != nil { msg_.%s = new(%s).marshall(%s%s) }",
 					obj, f.Name, f.messageFieldName(), pt.Name, obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(
-					"if %s%s != nil { v := %s(*%s%s); msg.%s = &v }",
+					"if %s%s != nil { v_ := %s(*%s%s); msg_.%s = &v_ }",
 					obj, f.Name, pt.Name, obj, f.Name, f.messageFieldName()), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
@@ -170,16 +170,16 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
-    msg.%s = make(map[%s]*%s)
-	for k, v := range %s%s {
-		msg.%s[%s(k)] = new(%s).marshall(&v)
+    msg_.%s = make(map[%s]*%s)
+	for k_, v_ := range %s%s {
+		msg_.%s[%s(k_)] = new(%s).marshall(&v_)
 	}`, f.messageFieldName(), t.KeyType, vt.Name, obj, f.Name, f.messageFieldName(), t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
-    msg.%s = make(map[%s]%s)
-	for k, v := range %s%s {
-		msg.%s[%s(k)] = %s(v)
+    msg_.%s = make(map[%s]%s)
+	for k_, v_ := range %s%s {
+		msg_.%s[%s(k_)] = %s(v_)
 	}`, f.messageFieldName(), t.KeyType, vt.Name, obj, f.Name, f.messageFieldName(), t.KeyType, vt.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
@@ -190,16 +190,16 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(
-					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
+					"for _, v_ := range %s%s { msg_.%s = append(msg_.%s, new(%s).marshall(&v_)) }",
 					obj, f.Name, f.messageFieldName(), f.messageFieldName(), st.Name), nil
 			case *gocode.BasicType:
 				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
 					// The element types differ, so every element must be converted
 					return fmt.Sprintf(
-						"for _, v := range %s%s { msg.%s = append(msg.%s, %s(v)) }",
+						"for _, v_ := range %s%s { msg_.%s = append(msg_.%s, %s(v_)) }",
 						obj, f.Name, f.messageFieldName(), f.messageFieldName(), st.Name), nil
 				}
-				return fmt.Sprintf("msg.%s = %s%s", f.messageFieldName(), obj, f.Name), nil
+				return fmt.Sprintf("msg_.%s = %s%s", f.messageFieldName(), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -212,11 +212,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", f.messageFieldName(), obj, f.Name), nil
+			return fmt.Sprintf("msg_.%s.unmarshall(&%s%s)", f.messageFieldName(), obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, f.messageFieldName()), nil
+			return fmt.Sprintf("%s%s = %v(msg_.%s)", obj, f.Name, f.SrcType, f.messageFieldName()), nil
 		}
 	case *gocode.Pointer:
 		{
@@ -227,11 +227,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(
-					"if msg.%s != nil { %s%s = new(%s); msg.%s.unmarshall(%s%s) }",
+					"if msg_.%s != nil { %s%s = new(%s); msg_.%s.unmarshall(%s%s) }",
 					f.messageFieldName(), obj, f.Name, imports.NameOf(src.PointerTo), f.messageFieldName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(
-					"if msg.%s != nil { v := %v(*msg.%s); %s%s = &v }",
+					"if msg_.%s != nil { v_ := %v(*msg_.%s); %s%s = &v_ }",
 					f.messageFieldName(), src.PointerTo, f.messageFieldName(), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
@@ -248,17 +248,17 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 				{
 					return fmt.Sprintf(`
     %s%s = make(%s)
-	for k, v := range msg.%s {
-		var objv %s
-		v.unmarshall(&objv)
-		%s%s[%v(k)] = objv
+	for k_, v_ := range msg_.%s {
+		var objv_ %s
+		v_.unmarshall(&objv_)
+		%s%s[%v(k_)] = objv_
 	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), imports.NameOf(src.ValueType), obj, f.Name, src.KeyType), nil
 				}
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
     %s%s = make(%s)
-	for k, v := range msg.%s {
-		%s%s[%v(k)] = %v(v)
+	for k_, v_ := range msg_.%s {
+		%s%s[%v(k_)] = %v(v_)
 	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), obj, f.Name, src.KeyType, src.ValueType), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
@@ -269,17 +269,17 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(`
-	%s%s = make(%s, len(msg.%s))
-	for i, v := range msg.%s {
-		v.unmarshall(&%s%s[i])
+	%s%s = make(%s, len(msg_.%s))
+	for i_, v_ := range msg_.%s {
+		v_.unmarshall(&%s%s[i_])
 	}`, obj, f.Name, imports.NameOf(f.SrcType), f.messageFieldName(), f.messageFieldName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				if src, ok := f.SrcType.(*gocode.Slice); ok && !src.SliceOf.Equals(st) {
 					return fmt.Sprintf(
-						"for _, v := range msg.%s { %s%s = append(%s%s, %v(v)) }",
+						"for _, v_ := range msg_.%s { %s%s = append(%s%s, %v(v_)) }",
 						f.messageFieldName(), obj, f.Name, obj, f.Name, src.SliceOf), nil
 				}
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, f.messageFieldName()), nil
+				return fmt.Sprintf("%s%s = msg_.%s", obj, f.Name, f.messageFieldName()), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index f0aeff5..118cb76 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -89,17 +89,17 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
-func (handler *{{$receiver}}) {{$f.Name -}}
-		(ctx context.Context, req *{{$service}}_{{$f.Name}}_Request) (*{{$service}}_{{$f.Name}}_Response, error) {
-	{{ArgVarsEquals $f}} req.unmarshall()
-	{{RetVars $f "err"}} := handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+func (handler_ *{{$receiver}}) {{$f.Name -}}
+		(ctx context.Context, req_ *{{$service}}_{{$f.Name}}_Request) (*{{$service}}_{{$f.Name}}_Response, error) {
+	{{ArgVarsEquals $f}} req_.unmarshall()
+	{{RetVars $f "err"}} := handler_.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		return nil, err
 	}
 
-	rsp := &{{$service}}_{{$f.Name}}_Response{}
-	rsp.marshall({{RetVars $f}})
-	return rsp, nil
+	rsp_ := &{{$service}}_{{$f.Name}}_Response{}
+	rsp_.marshall({{RetVars $f}})
+	return rsp_, nil
 }
 {{end}}
 `
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..bd31e95 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -73,51 +73,51 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{- range $_, $f := .Service.Methods }}
-func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
-	vals := url.Values{}
+func (client_ *{{$receiver}}) {{SignatureWithRetVars $f}} {
+	vals_ := url.Values{}
 	{{range $_, $arg := $f.Arguments}}
 	{{if eq (NameOf $arg.Type) "string" -}}
-	vals.Add("{{$arg.Name}}", {{$arg.Name}})
+	vals_.Add("{{$arg.Name}}", {{$arg.Name}})
 	{{- else -}}
 	bytes_{{$arg.Name}}, err := json.Marshal({{$arg.Name}})
 	if err != nil {
 		return
 	}
-	vals.Add("{{$arg.Name}}", string(bytes_{{$arg.Name}}))
+	vals_.Add("{{$arg.Name}}", string(bytes_{{$arg.Name}}))
 	{{- end}}
 	{{end}}
 
-	encoded_url, err := url.Parse(client.ServerAddress + "/{{$f.Name}}")
+	encoded_url_, err := url.Parse(client_.ServerAddress + "/{{$f.Name}}")
 	if err != nil {
 		return
 	}
-	encoded_url.RawQuery = vals.Encode()
+	encoded_url_.RawQuery = vals_.Encode()
 
-	resp, err := client.Client.Get(encoded_url.String())
+	resp_, err := client_.Client.Get(encoded_url_.String())
 	if err != nil {
 		return
 	}
-	defer resp.Body.Close()
-	statusOk := resp.StatusCode >= 200 && resp.StatusCode < 300
-	if !statusOk {
-		err = fmt.Errorf("StatusCode was %d", resp.StatusCode)
+	defer resp_.Body.Close()
+	statusOk_ := resp_.StatusCode >= 200 && resp_.StatusCode < 300
+	if !statusOk_ {
+		err = fmt.Errorf("StatusCode was %d", resp_.StatusCode)
 		return
 	}
-	response := struct {
+	response_ := struct {
 		{{range $i, $arg := $f.Returns}}
 		Ret{{$i}} {{NameOf $arg.Type}}
 		{{end}}
 	}{}
-	resp_bytes, err := io.ReadAll(resp.Body)
+	resp_bytes_, err := io.ReadAll(resp_.Body)
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(resp_bytes, &response)
+	err = json.Unmarshal(resp_bytes_, &response_)
 	if err != nil {
 		return
 	}
 	{{range $i, $arg := $f.Returns}}
-	ret{{$i}} = response.Ret{{$i}}
+	ret{{$i}} = response_.Ret{{$i}}
 	{{end}}
 	return
 }
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 38bb273..15a7127 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -85,40 +85,40 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
-func (handler *{{$receiver}}) {{$f.Name -}}
-	(w http.ResponseWriter, r *http.Request) {
+func (handler_ *{{$receiver}}) {{$f.Name -}}
+	(w_ http.ResponseWriter, r_ *http.Request) {
 	var err error
-	defer r.Body.Close()
+	defer r_.Body.Close()
 	{{range $_, $arg := $f.Arguments}}
 	{{if eq (NameOf $arg.Type) "string" -}}
-	{{$arg.Name}} := r.URL.Query().Get("{{$arg.Name}}")
+	{{$arg.Name}} := r_.URL.Query().Get("{{$arg.Name}}")
 	{{- else -}}
-	request_{{$arg.Name}} := r.URL.Query().Get("{{$arg.Name}}")
+	request_{{$arg.Name}} := r_.URL.Query().Get("{{$arg.Name}}")
 	var {{$arg.Name}} {{NameOf $arg.Type}}
 	if request_{{$arg.Name}} != "" {
 		err = json.Unmarshal([]byte(request_{{$arg.Name}}), &{{$arg.Name}})
 		if err != nil {
-			http.Error(w, err.Error(), 500)
+			http.Error(w_, err.Error(), 500)
 			return
 		}
 	}
 	{{- end}}
 	{{end}}
 	ctx := context.Background()
-	{{RetVars $f "err"}} {{HasNewReturnVars $f}} handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} {{HasNewReturnVars $f}} handler_.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
-		http.Error(w, err.Error(), 500)
+		http.Error(w_, err.Error(), 500)
 		return
 	}
-	response := struct {
+	response_ := struct {
 		{{range $i, $arg := $f.Returns}}
 		Ret{{$i}} {{NameOf $arg.Type}}
 		{{end}}
 	}{}
 	{{range $i, $arg := $f.Returns}}
-	response.Ret{{$i}} = ret{{$i}}
+	response_.Ret{{$i}} = ret{{$i}}
 	{{end}}
-	json.NewEncoder(w).Encode(response)
+	json.NewEncoder(w_).Encode(response_)
 }
 {{end}}
 `
-- 
2.43.0


From 6f549e3cf1ff81b6f33c6b85388e1eb9e8c27929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 069/102] fix: the parser dropped all but the first field of a
 declaration such as A, B int

---
 plugins/golang/goparser/parser.go | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index a8efb91..b002d4c 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -565,20 +565,30 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					f.Package.Structs[struc.Name] = struc
 
 					if t.Fields != nil {
-						for i, fieldDecl := range t.Fields.List {
-							field := &ParsedField{}
-							if fieldDecl.Names != nil {
-								field.Name = fieldDecl.Names[0].Name
+						for _, fieldDecl := range t.Fields.List {
+							var fields []*ParsedField
+							for _, name := range fieldDecl.Names {
+								// One declaration can declare several fields, e.g. A, B int
+								field := &ParsedField{}
+								field.Name = name.Name
 								struc.Fields[field.Name] = field
-							} else if struc.PromotedField == nil {
-								struc.PromotedField = field
-							} else {
-								struc.AnonymousFields = append(struc.AnonymousFields, field)
+								fields = append(fields, field)
+							}
+							if len(fieldDecl.Names) == 0 {
+								field := &ParsedField{}
+								if struc.PromotedField == nil {
+									struc.PromotedField = field
+								} else {
+									struc.AnonymousFields = append(struc.AnonymousFields, field)
+								}
+								fields = append(fields, field)
+							}
+							for _, field := range fields {
+								field.Position = len(struc.FieldsList)
+								field.Struct = struc
+								field.Ast = fieldDecl
+								struc.FieldsList = append(struc.FieldsList, field)
 							}
-							field.Position = i
-							field.Struct = struc
-							field.Ast = fieldDecl
-							struc.FieldsList = append(struc.FieldsList, field)
 						}
 					}
 				}
-- 
2.43.0


From a519ed0926d0e93b2831ad08a8a282e0222ddca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 070/102] fix: one unsupported declaration made the parser drop
 other declarations of the package

An embedded interface, or a method of a type that is not a struct, ended the loading of the package, and the error was
ignored: the interface was reported with part of its methods, and types and funcs that followed were missing.
---
 plugins/golang/goparser/parser.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index b002d4c..9b21e7c 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -213,7 +213,9 @@ func (mod *ParsedModule) Load() error {
 			}
 			mod.Packages[p.Name] = p
 
-			p.Load()
+			if err := p.Load(); err != nil {
+				return err
+			}
 		}
 		return nil
 	})
@@ -533,13 +535,15 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					iface.File = f
 					iface.Name = typespec.Name.Name
 					iface.Methods = make(map[string]*ParsedFunc)
-					f.Package.Interfaces[iface.Name] = iface
 
+					isMethodSet := true
 					// Can load interface funcs immediately
 					for _, methodDecl := range t.Methods.List {
 						funcType, isFuncType := methodDecl.Type.(*ast.FuncType)
 						if !isFuncType {
-							return blueprint.Errorf("expected a function declaration in interface " + iface.Name)
+							// Embedded interfaces and type constraints are not supported
+							isMethodSet = false
+							break
 						}
 
 						method := &ParsedFunc{}
@@ -548,6 +552,9 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 						method.Name = methodDecl.Names[0].Name
 						iface.Methods[method.Name] = method
 					}
+					if isMethodSet {
+						f.Package.Interfaces[iface.Name] = iface
+					}
 				}
 			case *ast.StructType:
 				{
@@ -669,10 +676,6 @@ func (f *ParsedFile) LoadFuncs() error {
 					{
 						receiverName = pointerReceiverType.Name
 					}
-				default:
-					{
-						return blueprint.Errorf("unable to parse receiver type of function %v", fun.Name)
-					}
 				}
 			}
 		case *ast.Ident:
@@ -685,7 +688,8 @@ func (f *ParsedFile) LoadFuncs() error {
 		// Associate the func with the receiver struct
 		struc, exists := f.Package.Structs[receiverName]
 		if !exists {
-			return blueprint.Errorf("function declared for receiver %v that does not exist in package", receiverName)
+			// A method of a generic type or of a type that isn't a struct
+			continue
 		}
 		struc.Methods[fun.Name] = fun
 	}
-- 
2.43.0


From 908d0dca9ca4144f86259c90fb72bda49b75a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 071/102] fix: the parser resolves identifiers in the order of
 Go's scopes

A type parameter or a package's type that shadows another type was reported as that type. uintptr was not known.
---
 plugins/golang/gocode/typename.go |  1 +
 plugins/golang/goparser/parser.go | 38 +++++++++++++++++++------------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index bd352c6..e234dfe 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -46,6 +46,7 @@ func initBasics() {
 		"rune",
 		"float32", "float64",
 		"complex64", "complex128",
+		"uintptr",
 		"error",
 	}
 	for _, name := range names {
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 9b21e7c..7120096 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -91,10 +91,11 @@ type (
 
 	ParsedFunc struct {
 		gocode.Func
-		File     *ParsedFile
-		Ast      *ast.FuncType
-		Body     *ast.BlockStmt
-		Receiver *ast.FieldList
+		File       *ParsedFile
+		Ast        *ast.FuncType
+		Body       *ast.BlockStmt
+		Receiver   *ast.FieldList
+		TypeParams []string // type params of the func or of its interface
 	}
 
 	// Currently we save var statements but don't do anything with them
@@ -326,7 +327,7 @@ func (f *ParsedFunc) Parse() error {
 	if f.Ast.Params != nil {
 		for _, p := range f.Ast.Params.List {
 			// Determine the argument's type
-			argType := f.File.ResolveType(p.Type)
+			argType := f.File.ResolveType(p.Type, f.TypeParams...)
 			if argType == nil {
 				return blueprint.Errorf("%v unable to resolve type of argument %v", f.Name, p.Type)
 			}
@@ -345,7 +346,7 @@ func (f *ParsedFunc) Parse() error {
 	if f.Ast.Results != nil {
 		for _, r := range f.Ast.Results.List {
 			// Determine the retval's type
-			retType := f.File.ResolveType(r.Type)
+			retType := f.File.ResolveType(r.Type, f.TypeParams...)
 			if retType == nil {
 				return blueprint.Errorf("%v unable to resolve type of retval %v", f.Name, r.Type)
 			}
@@ -373,12 +374,9 @@ An ident can be:
   - a generic type from a struct or func's type params
 */
 func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.TypeName {
-	if gocode.IsBasicType(name) {
-		return &gocode.BasicType{Name: name}
-	}
-
-	if name == "any" {
-		return &gocode.AnyType{}
+	// Inner scopes come first: type params, then the package, then the predeclared types
+	if slices.Contains(typeParams, name) {
+		return &gocode.GenericTypeParam{ParamName: name}
 	}
 
 	local, isLocalType := f.Package.DeclaredTypes[name]
@@ -386,8 +384,12 @@ func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.Type
 		return &local
 	}
 
-	if slices.Contains(typeParams, name) {
-		return &gocode.GenericTypeParam{ParamName: name}
+	if gocode.IsBasicType(name) {
+		return &gocode.BasicType{Name: name}
+	}
+
+	if name == "any" {
+		return &gocode.AnyType{}
 	}
 
 	if len(f.AnonymousImports) == 1 {
@@ -550,6 +552,7 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 						method.Ast = funcType
 						method.File = f
 						method.Name = methodDecl.Names[0].Name
+						method.TypeParams = typeParams
 						iface.Methods[method.Name] = method
 					}
 					if isMethodSet {
@@ -656,6 +659,13 @@ func (f *ParsedFile) LoadFuncs() error {
 		fun.Name = d.Name.Name
 		fun.Body = d.Body
 		fun.Receiver = d.Recv
+		if d.Type.TypeParams != nil {
+			for _, field := range d.Type.TypeParams.List {
+				for _, name := range field.Names {
+					fun.TypeParams = append(fun.TypeParams, name.Name)
+				}
+			}
+		}
 
 		if d.Recv == nil {
 			// This function is not associated with a struct, but it might still be a constructor
-- 
2.43.0


From 504edb44286c6d638899617b0958a8bd71ebc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 072/102] fix: the parser reported arrays as slices and dropped
 the arguments of generic types

A type with an unresolvable part was reported with that part missing, instead of as unresolvable.
---
 plugins/golang/gocode/typename.go | 49 +++++++++++++++++++++---
 plugins/golang/gogen/imports.go   |  8 ++++
 plugins/golang/goparser/parser.go | 63 ++++++++++++++++++++++++++-----
 3 files changed, 106 insertions(+), 14 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index e234dfe..a3d3194 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -3,6 +3,7 @@ package gocode
 import (
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -82,7 +83,7 @@ func NameOf[T any]() string {
 func typeof(t reflect.Type) TypeName {
 	switch t.Kind() {
 	case reflect.Array:
-		return &Slice{SliceOf: typeof(t.Elem())}
+		return &Array{Len: strconv.Itoa(t.Len()), ArrayOf: typeof(t.Elem())}
 	case reflect.Chan:
 		{
 			switch t.ChanDir() {
@@ -151,13 +152,22 @@ type (
 	}
 
 	/*
-		A slice or fixed-size array, e.g. []byte
+		A slice, e.g. []byte
 	*/
 	Slice struct {
 		TypeName
 		SliceOf TypeName // Slice of TypeName
 	}
 
+	/*
+		A fixed-size array, e.g. [16]byte
+	*/
+	Array struct {
+		TypeName
+		Len     string // The length, as written
+		ArrayOf TypeName
+	}
+
 	/*
 		Ellipsis type used in function arguments, e.g. ...string
 	*/
@@ -248,8 +258,9 @@ type (
 	*/
 	GenericType struct {
 		TypeName
-		BaseType  TypeName
-		TypeParam TypeName
+		BaseType       TypeName
+		TypeParam      TypeName
+		MoreTypeParams []TypeName // the second and further type params
 	}
 
 	// The type parameter of a generic struct or func
@@ -276,6 +287,10 @@ func (t *Slice) String() string {
 	return fmt.Sprintf("[]%s", t.SliceOf)
 }
 
+func (t *Array) String() string {
+	return fmt.Sprintf("[%s]%s", t.Len, t.ArrayOf)
+}
+
 func (t *Ellipsis) String() string {
 	return fmt.Sprintf("...%s", t.EllipsisOf)
 }
@@ -317,7 +332,11 @@ func (t *StructType) String() string {
 }
 
 func (t *GenericType) String() string {
-	return fmt.Sprintf("%v[%v]", t.BaseType, t.TypeParam)
+	params := fmt.Sprint(t.TypeParam)
+	for _, param := range t.MoreTypeParams {
+		params += ", " + param.String()
+	}
+	return fmt.Sprintf("%v[%v]", t.BaseType, params)
 }
 
 func (t *GenericTypeParam) String() string {
@@ -327,6 +346,7 @@ func (t *GenericTypeParam) String() string {
 func (t *BasicType) IsTypeName()        {}
 func (t *UserType) IsTypeName()         {}
 func (t *Slice) IsTypeName()            {}
+func (t *Array) IsTypeName()            {}
 func (t *Ellipsis) IsTypeName()         {}
 func (t *Pointer) IsTypeName()          {}
 func (t *Map) IsTypeName()              {}
@@ -373,6 +393,17 @@ func (t *Slice) Equals(other TypeName) bool {
 	return t.SliceOf.Equals(t2.SliceOf)
 }
 
+func (t *Array) Equals(other TypeName) bool {
+	if t == nil || other == nil {
+		return false
+	}
+	t2, isSameType := other.(*Array)
+	if !isSameType {
+		return false
+	}
+	return t.Len == t2.Len && t.ArrayOf.Equals(t2.ArrayOf)
+}
+
 func (t *Ellipsis) Equals(other TypeName) bool {
 	if t == nil || other == nil {
 		return false
@@ -479,6 +510,14 @@ func (t *GenericType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
+	if len(t.MoreTypeParams) != len(t2.MoreTypeParams) {
+		return false
+	}
+	for i := range t.MoreTypeParams {
+		if !t.MoreTypeParams[i].Equals(t2.MoreTypeParams[i]) {
+			return false
+		}
+	}
 	return t.BaseType.Equals(t2.BaseType) && t.TypeParam.Equals(t2.TypeParam)
 }
 
diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 0e6ec42..3424f3e 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -90,6 +90,10 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 		{
 			imports.AddType(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			imports.AddType(t.ArrayOf)
+		}
 	case *gocode.Map:
 		{
 			imports.AddType(t.KeyType)
@@ -159,6 +163,10 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "[]" + imports.NameOf(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			return "[" + t.Len + "]" + imports.NameOf(t.ArrayOf)
+		}
 	case *gocode.Map:
 		{
 			return fmt.Sprintf("map[%s]%s", imports.NameOf(t.KeyType), imports.NameOf(t.ValueType))
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 7120096..0796648 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -8,6 +8,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -419,9 +420,20 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	case *ast.Ident:
 		return f.ResolveIdent(e.Name, typeParams...)
 	case *ast.ArrayType:
-		return &gocode.Slice{SliceOf: f.ResolveType(e.Elt, typeParams...)}
+		elt := f.ResolveType(e.Elt, typeParams...)
+		if elt == nil {
+			return nil
+		}
+		if e.Len != nil {
+			return &gocode.Array{Len: types.ExprString(e.Len), ArrayOf: elt}
+		}
+		return &gocode.Slice{SliceOf: elt}
 	case *ast.MapType:
-		return &gocode.Map{KeyType: f.ResolveType(e.Key, typeParams...), ValueType: f.ResolveType(e.Value, typeParams...)}
+		key, value := f.ResolveType(e.Key, typeParams...), f.ResolveType(e.Value, typeParams...)
+		if key == nil || value == nil {
+			return nil
+		}
+		return &gocode.Map{KeyType: key, ValueType: value}
 	case *ast.InterfaceType:
 		return &gocode.InterfaceType{}
 	case *ast.SelectorExpr:
@@ -434,26 +446,59 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 			return f.ResolveSelector(x.Name, e.Sel.Name)
 		}
 	case *ast.StarExpr:
-		return &gocode.Pointer{PointerTo: f.ResolveType(e.X, typeParams...)}
+		elt := f.ResolveType(e.X, typeParams...)
+		if elt == nil {
+			return nil
+		}
+		return &gocode.Pointer{PointerTo: elt}
+	case *ast.ParenExpr:
+		return f.ResolveType(e.X, typeParams...)
 	case *ast.Ellipsis:
-		return &gocode.Ellipsis{EllipsisOf: f.ResolveType(e.Elt, typeParams...)}
+		elt := f.ResolveType(e.Elt, typeParams...)
+		if elt == nil {
+			return nil
+		}
+		return &gocode.Ellipsis{EllipsisOf: elt}
 	case *ast.ChanType:
+		elt := f.ResolveType(e.Value, typeParams...)
+		if elt == nil {
+			return nil
+		}
 		switch e.Dir {
 		case ast.SEND:
-			return &gocode.SendChan{SendType: f.ResolveType(e.Value, typeParams...)}
+			return &gocode.SendChan{SendType: elt}
 		case ast.RECV:
-			return &gocode.ReceiveChan{ReceiveType: f.ResolveType(e.Value, typeParams...)}
+			return &gocode.ReceiveChan{ReceiveType: elt}
 		default:
-			return &gocode.Chan{ChanOf: f.ResolveType(e.Value, typeParams...)}
+			return &gocode.Chan{ChanOf: elt}
 		}
 	case *ast.FuncType:
 		return &gocode.FuncType{}
 	case *ast.StructType:
 		return &gocode.StructType{}
 	case *ast.IndexExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		base, param := f.ResolveType(e.X, typeParams...), f.ResolveType(e.Index, typeParams...)
+		if base == nil || param == nil {
+			return nil
+		}
+		return &gocode.GenericType{BaseType: base, TypeParam: param}
 	case *ast.IndexListExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		t := &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		if t.BaseType == nil {
+			return nil
+		}
+		for i, index := range e.Indices {
+			param := f.ResolveType(index, typeParams...)
+			if param == nil {
+				return nil
+			}
+			if i == 0 {
+				t.TypeParam = param
+			} else {
+				t.MoreTypeParams = append(t.MoreTypeParams, param)
+			}
+		}
+		return t
 	default:
 		fmt.Printf("unknown or invalid expr type %v %v\n", reflect.TypeOf(expr), expr)
 	}
-- 
2.43.0


From c8da5e278cdde09228308f2f808f9c02956a4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 073/102] fix: the parser reports interface{} as the any type

---
 plugins/golang/goparser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 0796648..31e1577 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -435,6 +435,9 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 		}
 		return &gocode.Map{KeyType: key, ValueType: value}
 	case *ast.InterfaceType:
+		if len(e.Methods.List) == 0 {
+			return &gocode.AnyType{}
+		}
 		return &gocode.InterfaceType{}
 	case *ast.SelectorExpr:
 		{
-- 
2.43.0


From 6ba287c1dbf4ec27e8c62c8a95a27f7e67b90246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 074/102] fix: imports of generated code: generic types,
 channels of channels, package names, name of the own package

---
 plugins/circuitbreaker/codegen.go             |  2 +-
 plugins/faultinjector/delay/codegen.go        |  2 +-
 .../faultinjector/probabilistic/codegen.go    |  2 +-
 plugins/golang/gogen/imports.go               | 93 +++++++++++++++----
 plugins/govector/ir_clientwrapper.go          |  2 +-
 plugins/govector/ir_serverwrapper.go          |  4 +-
 plugins/grpc/grpccodegen/clientgen.go         |  2 +-
 plugins/grpc/grpccodegen/servergen.go         |  2 +-
 plugins/healthchecker/codegen.go              |  4 +-
 plugins/http/httpcodegen/clientgen.go         |  2 +-
 plugins/http/httpcodegen/servergen.go         |  2 +-
 plugins/latency/codegen.go                    |  2 +-
 plugins/loadbalancer/codegen.go               |  2 +-
 plugins/opentelemetry/ir_ot_client.go         |  2 +-
 plugins/opentelemetry/ir_ot_server.go         |  4 +-
 plugins/retries/codegen.go                    | 10 +-
 plugins/thrift/thriftcodegen/clientgen.go     |  2 +-
 plugins/thrift/thriftcodegen/servergen.go     |  2 +-
 plugins/timeouts/codegen.go                   |  2 +-
 plugins/xtrace/ir_xtrace_client_wrapper.go    |  2 +-
 plugins/xtrace/ir_xtrace_server_wrapper.go    |  4 +-
 21 files changed, 105 insertions(+), 44 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index f0ea19f..d12c585 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -24,7 +24,7 @@ func generateClient(builder golang.ModuleBuilder, nodeName string, wrapped *goco
 		MinReqs:     MinReqs,
 		FailureRate: FailureRate,
 		Interval:    Interval,
-		Imports:     gogen.NewImports(pkg.Name),
+		Imports:     gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
diff --git a/plugins/faultinjector/delay/codegen.go b/plugins/faultinjector/delay/codegen.go
index 2549306..760af79 100644
--- a/plugins/faultinjector/delay/codegen.go
+++ b/plugins/faultinjector/delay/codegen.go
@@ -22,7 +22,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Iface:     iface,
 		Name:      wrapped_service.BaseName + "_RandomDelayHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "time", "math/rand", "strconv")
diff --git a/plugins/faultinjector/probabilistic/codegen.go b/plugins/faultinjector/probabilistic/codegen.go
index 6100eba..3c5ba87 100644
--- a/plugins/faultinjector/probabilistic/codegen.go
+++ b/plugins/faultinjector/probabilistic/codegen.go
@@ -22,7 +22,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Iface:     iface,
 		Name:      wrapped_service.BaseName + "_ProbabilisticFailureHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "math/rand", "errors", "strconv")
diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 3424f3e..8797b0d 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -2,8 +2,14 @@ package gogen
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
+	"path"
 	"reflect"
+	"sort"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"golang.org/x/exp/slog"
@@ -21,8 +27,6 @@ import (
 type Imports struct {
 	localPackage string              // The name of the package where the importing is happening
 	packages     map[string]string   // Map from fully qualified package name to imported name
-	named        map[string]string   // Map of fully qualified package names to chosen import name
-	anonymous    map[string]struct{} // Map of fully qualified package names with default import name
 	seen         map[string]struct{} // Map from imported name to fully qualified package name
 }
 
@@ -32,8 +36,6 @@ func NewImports(packageName string) *Imports {
 	imports := &Imports{}
 	imports.localPackage = packageName
 	imports.packages = make(map[string]string)
-	imports.named = make(map[string]string)
-	imports.anonymous = make(map[string]struct{})
 	imports.seen = make(map[string]struct{})
 	return imports
 }
@@ -48,27 +50,51 @@ func (imports *Imports) AddPackage(pkg string) string {
 		return importName
 	}
 
-	splits := strings.Split(pkg, "/")
-	defaultImportName := splits[len(splits)-1]
+	defaultImportName := assumedName(pkg)
 	importName := defaultImportName
 	i := 2
 	for {
-		if _, exists := imports.seen[importName]; exists {
+		if _, exists := imports.seen[importName]; exists || isReserved(importName) {
 			importName = fmt.Sprintf("%v%v", defaultImportName, i)
 			i += 1
 		} else {
 			imports.packages[pkg] = importName
 			imports.seen[importName] = struct{}{}
-			if importName == defaultImportName {
-				imports.anonymous[pkg] = struct{}{}
-			} else {
-				imports.named[pkg] = importName
-			}
 			return importName
 		}
 	}
 }
 
+// The name that a package with the fully-qualified name pkg conventionally has; the
+// same convention as used by goimports:  a major version suffix, a "go-" prefix, and
+// anything following the first character that can't be part of a name, are ignored.
+func assumedName(pkg string) string {
+	base := path.Base(pkg)
+	if strings.HasPrefix(base, "v") {
+		if _, err := strconv.Atoi(base[1:]); err == nil {
+			if dir := path.Dir(pkg); dir != "." {
+				base = path.Base(dir)
+			}
+		}
+	}
+	base = strings.TrimPrefix(base, "go-")
+	if i := strings.IndexFunc(base, func(c rune) bool {
+		return !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_'
+	}); i >= 0 {
+		base = base[:i]
+	}
+	if base == "" || unicode.IsDigit(rune(base[0])) {
+		base = "pkg" + base
+	}
+	return base
+}
+
+// Reports whether importing a package with this name is either not possible or
+// would hide something that all packages can use, such as the type string
+func isReserved(name string) bool {
+	return token.IsKeyword(name) || types.Universe.Lookup(name) != nil || name == "_" || name == "init" || name == "main"
+}
+
 func (imports *Imports) AddPackages(pkgs ...string) {
 	for _, pkg := range pkgs {
 		imports.AddPackage(pkg)
@@ -111,6 +137,18 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 		{
 			imports.AddType(t.SendType)
 		}
+	case *gocode.Ellipsis:
+		{
+			imports.AddType(t.EllipsisOf)
+		}
+	case *gocode.GenericType:
+		{
+			imports.AddType(t.BaseType)
+			imports.AddType(t.TypeParam)
+			for _, param := range t.MoreTypeParams {
+				imports.AddType(param)
+			}
+		}
 	}
 }
 
@@ -118,11 +156,14 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 func (imports *Imports) String() string {
 	var b strings.Builder
 	b.WriteString("import (\n")
-	for pkg := range imports.anonymous {
-		b.WriteString(fmt.Sprintf("\t\"%s\"\n", pkg))
+	var pkgs []string
+	for pkg := range imports.packages {
+		pkgs = append(pkgs, pkg)
 	}
-	for pkg, importName := range imports.named {
-		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", importName, pkg))
+	sort.Strings(pkgs)
+	for _, pkg := range pkgs {
+		// The name is always given, since the package might not be called what its path suggests
+		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", imports.packages[pkg], pkg))
 	}
 	b.WriteString(")")
 	return b.String()
@@ -173,6 +214,10 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		}
 	case *gocode.Chan:
 		{
+			if _, isReceive := t.ChanOf.(*gocode.ReceiveChan); isReceive {
+				// The arrow would otherwise belong to the outer channel
+				return "chan (" + imports.NameOf(t.ChanOf) + ")"
+			}
 			return "chan " + imports.NameOf(t.ChanOf)
 		}
 	case *gocode.ReceiveChan:
@@ -183,6 +228,22 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "chan<- " + imports.NameOf(t.SendType)
 		}
+	case *gocode.Ellipsis:
+		{
+			return "..." + imports.NameOf(t.EllipsisOf)
+		}
+	case *gocode.GenericType:
+		{
+			params := []string{imports.NameOf(t.TypeParam)}
+			for _, param := range t.MoreTypeParams {
+				params = append(params, imports.NameOf(param))
+			}
+			return imports.NameOf(t.BaseType) + "[" + strings.Join(params, ", ") + "]"
+		}
+	case *gocode.AnyType, *gocode.GenericTypeParam:
+		{
+			return t.String()
+		}
 	default:
 		{
 			slog.Warn(fmt.Sprintf("Importing unknown type %v %v", typeName, reflect.TypeOf(typeName)))
diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index fc6206a..4d43493 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -129,7 +129,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Name:            wrapped.BaseName + "_GoVecClientWrapper",
 		IfaceName:       impl.Name,
 		ServerIfaceName: wrapped.BaseName + "_GoVecServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
+		Imports:         gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 34c03d3..47d1778 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -136,7 +136,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Impl:      impl,
 		Name:      wrapped.BaseName + "_GoVecServerWrapper",
 		IfaceName: impl.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
@@ -165,7 +165,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Impl:      iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index 6ab3af8..ae35fe4 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -21,7 +21,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 		Package: pkg,
 		Service: service,
 		Name:    service.BaseName + "_GRPCClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages(
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index 118cb76..ad524d4 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -25,7 +25,7 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 		Package: pkg,
 		Service: service,
 		Name:    service.BaseName + "_GRPCServerHandler",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages(
diff --git a/plugins/healthchecker/codegen.go b/plugins/healthchecker/codegen.go
index 4c6cf61..7634a31 100644
--- a/plugins/healthchecker/codegen.go
+++ b/plugins/healthchecker/codegen.go
@@ -22,7 +22,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Iface:     iface,
 		Name:      wrapped_service.BaseName + "_HealthCheckHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
@@ -51,7 +51,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Iface:     iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index bd31e95..b403e09 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -21,7 +21,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 		Package: pkg,
 		Service: service,
 		Name:    service.BaseName + "_HTTPClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages(
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 15a7127..1291946 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -23,7 +23,7 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 		Package: pkg,
 		Service: service,
 		Name:    service.BaseName + "_HTTPServerHandler",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "encoding/json", "net/http", "github.com/gorilla/mux")
diff --git a/plugins/latency/codegen.go b/plugins/latency/codegen.go
index c6a0c33..1a21af4 100644
--- a/plugins/latency/codegen.go
+++ b/plugins/latency/codegen.go
@@ -21,7 +21,7 @@ func generateServerWrapper(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package: pkg,
 		Service: wrapped,
 		Name:    wrapped.BaseName + "_LatencyInjector",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "time")
diff --git a/plugins/loadbalancer/codegen.go b/plugins/loadbalancer/codegen.go
index 8776476..416f271 100644
--- a/plugins/loadbalancer/codegen.go
+++ b/plugins/loadbalancer/codegen.go
@@ -31,7 +31,7 @@ func generateLBServer(builder golang.ModuleBuilder, iface *gocode.ServiceInterfa
 		Name:      iface.BaseName + "LoadBalancer",
 		BaseType:  client_iface.String(),
 		Service:   iface,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	templ.Imports.AddPackages("context", "sync")
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index d187921..9db0696 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -145,7 +145,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Name:            wrapped.BaseName + "_OTClientWrapper",
 		IfaceName:       impl.Name,
 		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
+		Imports:         gogen.NewImports(pkg.PackageName),
 		GenSpans:        genClientSpans,
 	}
 
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index 5e5bede..83b8e1e 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -179,7 +179,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		CollIface: coll_iface,
 		Name:      wrapped.BaseName + "_OTServerWrapper",
 		IfaceName: impl.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	env := &envArgs{
@@ -210,7 +210,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Impl:      iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index dff0a52..d24b386 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -23,7 +23,7 @@ func generateClient(builder golang.ModuleBuilder, nodeName string, wrapped *goco
 		Service: wrapped,
 		Name:    ir.CleanName(nodeName) + "_RetrierClient",
 		Max:     Max,
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context")
@@ -41,7 +41,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, nodeName string, wra
 		Package:   pkg,
 		Service:   wrapped,
 		Name:      ir.CleanName(nodeName) + "_RetrierExpBackoffClient",
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 		Delay:     delay,
 		Limit:     limit,
 		UseJitter: useJitter,
@@ -62,7 +62,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, nodeName string, wra
 		Package: pkg,
 		Service: wrapped,
 		Name:    ir.CleanName(nodeName) + "_RetrierFixedDelayClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 		Delay:   delay,
 		Max:     max_tries,
 	}
@@ -84,7 +84,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, nodeName string, wr
 		Name:           ir.CleanName(nodeName) + "_RetrierRateLimiterClient",
 		Max:            Max,
 		RetryRateLimit: RetryRateLimit,
-		Imports:        gogen.NewImports(pkg.Name),
+		Imports:        gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "time", "sync")
@@ -102,7 +102,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, nodeName string, wr
 		Package:      pkg,
 		Service:      wrapped,
 		Name:         ir.CleanName(nodeName) + "_RetrierTokenBucketClient",
-		Imports:      gogen.NewImports(pkg.Name),
+		Imports:      gogen.NewImports(pkg.PackageName),
 		Capacity:     capacity,
 		RetryCost:    retry_cost,
 		ReplenishAmt: replenish_amount,
diff --git a/plugins/thrift/thriftcodegen/clientgen.go b/plugins/thrift/thriftcodegen/clientgen.go
index 2e50670..e2c6951 100644
--- a/plugins/thrift/thriftcodegen/clientgen.go
+++ b/plugins/thrift/thriftcodegen/clientgen.go
@@ -26,7 +26,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 		Package:      pkg,
 		Service:      service,
 		Name:         service.BaseName + "_ThriftClient",
-		Imports:      gogen.NewImports(pkg.Name),
+		Imports:      gogen.NewImports(pkg.PackageName),
 		ImportPrefix: innerPkg,
 	}
 
diff --git a/plugins/thrift/thriftcodegen/servergen.go b/plugins/thrift/thriftcodegen/servergen.go
index 8127b36..ef76be8 100644
--- a/plugins/thrift/thriftcodegen/servergen.go
+++ b/plugins/thrift/thriftcodegen/servergen.go
@@ -26,7 +26,7 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 		Package:      pkg,
 		Service:      service,
 		Name:         service.BaseName + "_ThriftServerHandler",
-		Imports:      gogen.NewImports(pkg.Name),
+		Imports:      gogen.NewImports(pkg.PackageName),
 		ImportPrefix: innerPkg,
 	}
 
diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 0345424..ff1c7b1 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -21,7 +21,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 		Package: pkg,
 		Service: wrapped,
 		Name:    wrapped.BaseName + "_TimeoutClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "time", "errors")
diff --git a/plugins/xtrace/ir_xtrace_client_wrapper.go b/plugins/xtrace/ir_xtrace_client_wrapper.go
index 839416e..9b16c15 100644
--- a/plugins/xtrace/ir_xtrace_client_wrapper.go
+++ b/plugins/xtrace/ir_xtrace_client_wrapper.go
@@ -145,7 +145,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Name:            wrapped.BaseName + "_XTraceClientWrapper",
 		IfaceName:       impl.Name,
 		ServerIfaceName: wrapped.BaseName + "_XTraceServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
+		Imports:         gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "github.com/tracingplane/tracingplane-go/tracingplane")
diff --git a/plugins/xtrace/ir_xtrace_server_wrapper.go b/plugins/xtrace/ir_xtrace_server_wrapper.go
index 164a187..2fba10c 100644
--- a/plugins/xtrace/ir_xtrace_server_wrapper.go
+++ b/plugins/xtrace/ir_xtrace_server_wrapper.go
@@ -154,7 +154,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		XTIface:   xt_iface,
 		Name:      wrapped.BaseName + "_XTraceServerWrapper",
 		IfaceName: impl.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "github.com/tracingplane/tracingplane-go/tracingplane")
@@ -184,7 +184,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Impl:      iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
-- 
2.43.0


From 51214adaa41b163d0df635a558073463ccade0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 075/102] fix: generated code did not compile for arguments
 named like its own variables and imports

---
 plugins/golang/gogen/template.go      | 22 +++++++++++++++-------
 plugins/http/httpcodegen/clientgen.go |  9 +++++----
 plugins/http/httpcodegen/servergen.go | 13 +++++++------
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..b16645e 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -71,6 +71,7 @@ func newTemplateExecutor(args any) *templateExecutor {
 
 	e.Funcs["NameOf"] = e.NameOf
 	e.Funcs["DeclareArgVars"] = e.DeclareArgVars
+	e.Funcs["ArgVar"] = e.ArgVar
 	e.Funcs["ArgVars"] = e.ArgVars
 	e.Funcs["ArgVarsCutoff"] = e.ArgVarsCutoff
 	e.Funcs["ArgVarsEquals"] = e.ArgVarsEquals
@@ -108,9 +109,16 @@ func (e *templateExecutor) NameOf(typeName gocode.TypeName) (string, error) {
 	return "", blueprint.Errorf("the NameOf template function requires that the template args have a *gocode.Imports field, but none was found")
 }
 
+// The name of the variable that holds the ith argument of f.  It differs from the name given to the
+// argument where f is declared, because templates have variables and imports of their own (e.g. ctx,
+// err, ret0, time) which the argument's name could clash with.
+func (e *templateExecutor) ArgVar(f gocode.Func, i int) string {
+	return fmt.Sprintf("arg%d_%s", i, f.Arguments[i].Name)
+}
+
 func (e *templateExecutor) DeclareArgVars(f gocode.Func) (string, error) {
 	tmpl := `{{range $i, $arg := .Arguments}}
-	var {{$arg.Name}} {{NameOf $arg.Type}}
+	var {{ArgVar $ $i}} {{NameOf $arg.Type}}
 	{{- end}}`
 	return e.exec("DeclareArgVars", tmpl, f)
 }
@@ -120,8 +128,8 @@ func (e *templateExecutor) ArgVars(f gocode.Func, prefix ...string) (string, err
 }
 
 func (e *templateExecutor) ArgVarsCutoff(f gocode.Func, cutoff int, prefix ...string) (string, error) {
-	for _, arg := range f.Arguments {
-		prefix = append(prefix, arg.Name)
+	for i := range f.Arguments {
+		prefix = append(prefix, e.ArgVar(f, i))
 	}
 	return strings.Join(prefix[:len(prefix)-cutoff], ", "), nil
 }
@@ -130,8 +138,8 @@ func (e *templateExecutor) ArgVarsEquals(f gocode.Func, prefix ...string) (strin
 	if len(f.Arguments) == 0 && len(prefix) == 0 {
 		return "", nil
 	}
-	for _, arg := range f.Arguments {
-		prefix = append(prefix, arg.Name)
+	for i := range f.Arguments {
+		prefix = append(prefix, e.ArgVar(f, i))
 	}
 	return fmt.Sprintf("%v :=", strings.Join(prefix, ", ")), nil
 }
@@ -141,12 +149,12 @@ func (e *templateExecutor) ArgVarsAndTypes(f gocode.Func, prefix ...string) (str
 }
 
 func (e *templateExecutor) ArgVarsAndTypesCutoff(f gocode.Func, cutoff int, prefix ...string) (string, error) {
-	for _, arg := range f.Arguments {
+	for i, arg := range f.Arguments {
 		argType, err := e.NameOf(arg.Type)
 		if err != nil {
 			return "", err
 		}
-		prefix = append(prefix, arg.Name+" "+argType)
+		prefix = append(prefix, e.ArgVar(f, i)+" "+argType)
 	}
 	return strings.Join(prefix[:len(prefix)-cutoff], ", "), nil
 }
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index b403e09..d4e11b0 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -75,15 +75,16 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 {{- range $_, $f := .Service.Methods }}
 func (client_ *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	vals_ := url.Values{}
-	{{range $_, $arg := $f.Arguments}}
+	{{range $i, $arg := $f.Arguments}}
+	{{$var := ArgVar $f $i -}}
 	{{if eq (NameOf $arg.Type) "string" -}}
-	vals_.Add("{{$arg.Name}}", {{$arg.Name}})
+	vals_.Add("{{$arg.Name}}", {{$var}})
 	{{- else -}}
-	bytes_{{$arg.Name}}, err := json.Marshal({{$arg.Name}})
+	bytes_{{$var}}, err := json.Marshal({{$var}})
 	if err != nil {
 		return
 	}
-	vals_.Add("{{$arg.Name}}", string(bytes_{{$arg.Name}}))
+	vals_.Add("{{$arg.Name}}", string(bytes_{{$var}}))
 	{{- end}}
 	{{end}}
 
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 1291946..b176b93 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -89,14 +89,15 @@ func (handler_ *{{$receiver}}) {{$f.Name -}}
 	(w_ http.ResponseWriter, r_ *http.Request) {
 	var err error
 	defer r_.Body.Close()
-	{{range $_, $arg := $f.Arguments}}
+	{{range $i, $arg := $f.Arguments}}
+	{{$var := ArgVar $f $i -}}
 	{{if eq (NameOf $arg.Type) "string" -}}
-	{{$arg.Name}} := r_.URL.Query().Get("{{$arg.Name}}")
+	{{$var}} := r_.URL.Query().Get("{{$arg.Name}}")
 	{{- else -}}
-	request_{{$arg.Name}} := r_.URL.Query().Get("{{$arg.Name}}")
-	var {{$arg.Name}} {{NameOf $arg.Type}}
-	if request_{{$arg.Name}} != "" {
-		err = json.Unmarshal([]byte(request_{{$arg.Name}}), &{{$arg.Name}})
+	request_{{$var}} := r_.URL.Query().Get("{{$arg.Name}}")
+	var {{$var}} {{NameOf $arg.Type}}
+	if request_{{$var}} != "" {
+		err = json.Unmarshal([]byte(request_{{$var}}), &{{$var}})
 		if err != nil {
 			http.Error(w_, err.Error(), 500)
 			return
-- 
2.43.0


From 37bb43717e241431c37e17601c8c597465df8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 076/102] fix: extending a copied function signature overwrote
 the signature it was copied from

---
 plugins/golang/gocode/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/golang/gocode/service.go b/plugins/golang/gocode/service.go
index 3f523ad..bc18cf0 100644
--- a/plugins/golang/gocode/service.go
+++ b/plugins/golang/gocode/service.go
@@ -82,11 +82,12 @@ func (f *Func) GetReturns() []service.Variable {
 }
 
 func (f *Func) AddArgument(variable Variable) {
-	f.Arguments = append(f.Arguments, variable)
+	// The existing slice is possibly shared with a copy of f
+	f.Arguments = append(append([]Variable(nil), f.Arguments...), variable)
 }
 
 func (f *Func) AddRetVar(variable Variable) {
-	f.Returns = append(f.Returns, variable)
+	f.Returns = append(append([]Variable(nil), f.Returns...), variable)
 }
 
 func (v *Variable) GetName() string {
-- 
2.43.0


From 45600e67ce8cc111f05fa1941848a6ddb4b3445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 077/102] fix: client pools of services with the same interface
 used the clients and the size of the first pool

---
 plugins/clientpool/ir.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..597bd3f 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,9 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* Only generate code for this clientpool once. Each pool has code of its own, since
+	pools of clients with the same interface can differ in their size and their nodes */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +85,7 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.UniqueName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -143,13 +140,14 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	args.UniqueName = ir.CleanName(pool.PoolName)
+	args.PoolName = args.UniqueName + "_ClientPool"
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = args.UniqueName + "_pool_client.go"
+	args.PoolFileName = args.UniqueName + "_pool.go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.UniqueName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.UniqueName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
@@ -163,6 +161,7 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 type (
 	templateArgs struct {
 		InstanceName      string
+		UniqueName        string
 		WrappedClient     string
 		MaxClients        int
 		PoolName          string
-- 
2.43.0


From 2b26fd9fe5c5750030879b12670d1e827730f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 078/102] fix: code generated for different interfaces derived
 from the same interface overwrote each other

---
 plugins/faultinjector/delay/codegen.go         |  2 +-
 plugins/faultinjector/delay/ir.go              |  2 +-
 plugins/faultinjector/probabilistic/codegen.go |  2 +-
 plugins/faultinjector/probabilistic/ir.go      |  2 +-
 plugins/govector/ir_clientwrapper.go           |  8 ++++----
 plugins/govector/ir_serverwrapper.go           |  6 +++---
 plugins/grpc/grpccodegen/clientgen.go          |  2 +-
 plugins/grpc/grpccodegen/protogen.go           | 10 +++++-----
 plugins/grpc/grpccodegen/servergen.go          |  2 +-
 plugins/grpc/ir_grpc_client.go                 |  2 +-
 plugins/grpc/ir_grpc_server.go                 |  2 +-
 plugins/healthchecker/codegen.go               |  2 +-
 plugins/healthchecker/ir.go                    |  4 ++--
 plugins/http/httpcodegen/clientgen.go          |  2 +-
 plugins/http/httpcodegen/servergen.go          |  6 +++---
 plugins/http/ir_http_client.go                 |  2 +-
 plugins/http/ir_http_server.go                 |  2 +-
 plugins/latency/codegen.go                     |  6 +++---
 plugins/latency/ir.go                          |  2 +-
 plugins/loadbalancer/codegen.go                |  2 +-
 plugins/opentelemetry/ir_ot_client.go          |  8 ++++----
 plugins/opentelemetry/ir_ot_server.go          |  6 +++---
 plugins/timeouts/codegen.go                    |  6 +++---
 plugins/timeouts/ir.go                         |  2 +-
 24 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/plugins/faultinjector/delay/codegen.go b/plugins/faultinjector/delay/codegen.go
index 760af79..aeeb0e6 100644
--- a/plugins/faultinjector/delay/codegen.go
+++ b/plugins/faultinjector/delay/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_RandomDelayHandler",
+		Name:      wrapped_service.Name + "_RandomDelayHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
diff --git a/plugins/faultinjector/delay/ir.go b/plugins/faultinjector/delay/ir.go
index 645308f..17d4d24 100644
--- a/plugins/faultinjector/delay/ir.go
+++ b/plugins/faultinjector/delay/ir.go
@@ -69,7 +69,7 @@ func (node *RandomDelayServerWrapper) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/faultinjector/probabilistic/codegen.go b/plugins/faultinjector/probabilistic/codegen.go
index 3c5ba87..8f5c7ea 100644
--- a/plugins/faultinjector/probabilistic/codegen.go
+++ b/plugins/faultinjector/probabilistic/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_ProbabilisticFailureHandler",
+		Name:      wrapped_service.Name + "_ProbabilisticFailureHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
diff --git a/plugins/faultinjector/probabilistic/ir.go b/plugins/faultinjector/probabilistic/ir.go
index be852ea..8f4a80e 100644
--- a/plugins/faultinjector/probabilistic/ir.go
+++ b/plugins/faultinjector/probabilistic/ir.go
@@ -69,7 +69,7 @@ func (node *ServerWrapper) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index 4d43493..3c54f5a 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -58,7 +58,7 @@ func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecClientWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.Arguments = method.Arguments[:len(method.Arguments)-1]
 		method.Returns = method.Returns[:len(method.Returns)-1]
@@ -81,7 +81,7 @@ func (node *GovecClientWrapper) AddInstantiation(builder golang.NamespaceBuilder
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -126,9 +126,9 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package:         pkg,
 		Service:         wrapped,
 		Impl:            impl,
-		Name:            wrapped.BaseName + "_GoVecClientWrapper",
+		Name:            wrapped.Name + "_GoVecClientWrapper",
 		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_GoVecServerWrapperInterface",
+		ServerIfaceName: wrapped.Name + "_GoVecServerWrapperInterface",
 		Imports:         gogen.NewImports(pkg.PackageName),
 	}
 
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 47d1778..d4401a1 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -58,7 +58,7 @@ func (node *GovecServerWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.AddArgument(gocode.Variable{Name: "govecctx", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
 		method.AddRetVar(gocode.Variable{Name: "", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
@@ -79,7 +79,7 @@ func (node *GovecServerWrapper) AddInstantiation(builder golang.NamespaceBuilder
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -134,7 +134,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package:   pkg,
 		Service:   wrapped,
 		Impl:      impl,
-		Name:      wrapped.BaseName + "_GoVecServerWrapper",
+		Name:      wrapped.Name + "_GoVecServerWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index ae35fe4..089f56e 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -20,7 +20,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCClient",
+		Name:    service.Name + "_GRPCClient",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index bdade2f..05861df 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -24,7 +24,7 @@ See the plugin README for the required GRPC and protocol buffers package depende
 */
 func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInterface, outputPackage string) error {
 	// No need to generate the proto more than once
-	if builder.Visited(outputPackage + "/" + service.BaseName + ".proto") {
+	if builder.Visited(outputPackage + "/" + service.Name + ".proto") {
 		return nil
 	}
 
@@ -35,7 +35,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Construct and validate the GRPC proto builder for the service
-	pb := newProtoBuilder(modules, service.BaseName)
+	pb := newProtoBuilder(modules, service.Name)
 	splits := strings.Split(outputPackage, "/")
 	outputPackageName := splits[len(splits)-1]
 	pb.Module = builder.Info()
@@ -55,7 +55,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Write the proto file
-	outputFilename := filepath.Join(outputDir, service.BaseName+".proto")
+	outputFilename := filepath.Join(outputDir, service.Name+".proto")
 	err = pb.WriteProtoFile(outputFilename)
 	if err != nil {
 		return err
@@ -68,8 +68,8 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Generate the marshalling code
-	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.BaseName))
-	marshallFile := filepath.Join(outputDir, service.BaseName+"_conversions.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.Name))
+	marshallFile := filepath.Join(outputDir, service.Name+"_conversions.go")
 	return pb.GenerateMarshallingCode(marshallFile)
 }
 
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index ad524d4..92aba06 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -24,7 +24,7 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCServerHandler",
+		Name:    service.Name + "_GRPCServerHandler",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
diff --git a/plugins/grpc/ir_grpc_client.go b/plugins/grpc/ir_grpc_client.go
index edb6ebb..64c0176 100644
--- a/plugins/grpc/ir_grpc_client.go
+++ b/plugins/grpc/ir_grpc_client.go
@@ -109,7 +109,7 @@ func (node *golangClient) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/grpc/ir_grpc_server.go b/plugins/grpc/ir_grpc_server.go
index afc006b..626b0e3 100644
--- a/plugins/grpc/ir_grpc_server.go
+++ b/plugins/grpc/ir_grpc_server.go
@@ -101,7 +101,7 @@ func (node *golangServer) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/healthchecker/codegen.go b/plugins/healthchecker/codegen.go
index 7634a31..066c686 100644
--- a/plugins/healthchecker/codegen.go
+++ b/plugins/healthchecker/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_HealthCheckHandler",
+		Name:      wrapped_service.Name + "_HealthCheckHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
diff --git a/plugins/healthchecker/ir.go b/plugins/healthchecker/ir.go
index 3bf72ba..a387157 100644
--- a/plugins/healthchecker/ir.go
+++ b/plugins/healthchecker/ir.go
@@ -68,7 +68,7 @@ func (node *HealthCheckerServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("Healthchecker expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	health_check_method := &gocode.Func{}
 	health_check_method.Name = "Health"
 	health_check_method.Returns = append(health_check_method.Returns, gocode.Variable{Type: &gocode.BasicType{Name: "string"}})
@@ -110,7 +110,7 @@ func (node *HealthCheckerServerWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index d4e11b0..1523f88 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -20,7 +20,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPClient",
+		Name:    service.Name + "_HTTPClient",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index b176b93..f1d0ba2 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -22,14 +22,14 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPServerHandler",
+		Name:    service.Name + "_HTTPServerHandler",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "encoding/json", "net/http", "github.com/gorilla/mux")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.BaseName))
-	outputFile := filepath.Join(server.Package.Path, service.BaseName+"_HTTPServer.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.Name))
+	outputFile := filepath.Join(server.Package.Path, service.Name+"_HTTPServer.go")
 	return gogen.ExecuteTemplateToFile("HTTPServer", serverTemplate, server, outputFile)
 }
 
diff --git a/plugins/http/ir_http_client.go b/plugins/http/ir_http_client.go
index e020a3c..0f753e6 100644
--- a/plugins/http/ir_http_client.go
+++ b/plugins/http/ir_http_client.go
@@ -91,7 +91,7 @@ func (node *GolangHttpClient) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/http/ir_http_server.go b/plugins/http/ir_http_server.go
index 66b1107..5120a50 100644
--- a/plugins/http/ir_http_server.go
+++ b/plugins/http/ir_http_server.go
@@ -90,7 +90,7 @@ func (node *golangHttpServer) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/latency/codegen.go b/plugins/latency/codegen.go
index 1a21af4..8c92f11 100644
--- a/plugins/latency/codegen.go
+++ b/plugins/latency/codegen.go
@@ -20,13 +20,13 @@ func generateServerWrapper(builder golang.ModuleBuilder, wrapped *gocode.Service
 	server := serverArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_LatencyInjector",
+		Name:    wrapped.Name + "_LatencyInjector",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "time")
-	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.BaseName+"_LatencyInjector"))
-	outputFile := filepath.Join(server.Package.Path, wrapped.BaseName+"_LatencyInjector.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.Name+"_LatencyInjector"))
+	outputFile := filepath.Join(server.Package.Path, wrapped.Name+"_LatencyInjector.go")
 
 	return gogen.ExecuteTemplateToFile("LatencyInjector", serverTemplate, server, outputFile)
 }
diff --git a/plugins/latency/ir.go b/plugins/latency/ir.go
index 8d315e9..2d78c39 100644
--- a/plugins/latency/ir.go
+++ b/plugins/latency/ir.go
@@ -91,7 +91,7 @@ func (node *LatencyInjectorWrapper) AddInstantiation(builder golang.NamespaceBui
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "server", Type: iface},
diff --git a/plugins/loadbalancer/codegen.go b/plugins/loadbalancer/codegen.go
index 416f271..a4d0440 100644
--- a/plugins/loadbalancer/codegen.go
+++ b/plugins/loadbalancer/codegen.go
@@ -28,7 +28,7 @@ func generateLBServer(builder golang.ModuleBuilder, iface *gocode.ServiceInterfa
 	templ := templateArgs{
 		Package:   pkg,
 		IfaceName: iface.String(),
-		Name:      iface.BaseName + "LoadBalancer",
+		Name:      iface.Name + "LoadBalancer",
 		BaseType:  client_iface.String(),
 		Service:   iface,
 		Imports:   gogen.NewImports(pkg.PackageName),
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index 9db0696..46d1e18 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -52,7 +52,7 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTClientWrapper expected build context to be a ModuleBuiler, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.Arguments = method.Arguments[:len(method.Arguments)-1]
 		i.Methods[name] = method
@@ -116,7 +116,7 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTClientWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_OTClientWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -142,9 +142,9 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:         wrapped,
 		Impl:            impl,
 		CollIface:       coll_iface,
-		Name:            wrapped.BaseName + "_OTClientWrapper",
+		Name:            wrapped.Name + "_OTClientWrapper",
 		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
+		ServerIfaceName: wrapped.Name + "_OTServerWrapperInterface",
 		Imports:         gogen.NewImports(pkg.PackageName),
 		GenSpans:        genClientSpans,
 	}
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index 83b8e1e..48082fc 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -62,7 +62,7 @@ func (node *OpenTelemetryServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.AddArgument(gocode.Variable{Name: "traceCtx", Type: &gocode.BasicType{Name: "string"}})
 		i.Methods[name] = method
@@ -144,7 +144,7 @@ func (node *OpenTelemetryServerWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -177,7 +177,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:   wrapped,
 		Impl:      impl,
 		CollIface: coll_iface,
-		Name:      wrapped.BaseName + "_OTServerWrapper",
+		Name:      wrapped.Name + "_OTServerWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index ff1c7b1..5df07ec 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -20,13 +20,13 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_TimeoutClient",
+		Name:    wrapped.Name + "_TimeoutClient",
 		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "time", "errors")
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"_TimeoutClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_TimeoutClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.Name+"_TimeoutClient"))
+	outputFile := filepath.Join(client.Package.Path, wrapped.Name+"_TimeoutClient.go")
 
 	return gogen.ExecuteTemplateToFile("Timeouts", clientTemplate, client, outputFile)
 }
diff --git a/plugins/timeouts/ir.go b/plugins/timeouts/ir.go
index 05bc8e6..9ef7e41 100644
--- a/plugins/timeouts/ir.go
+++ b/plugins/timeouts/ir.go
@@ -92,7 +92,7 @@ func (node *TimeoutClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From 0985b676403471ae9b9d0479effa9326ae1e017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 079/102] fix: tracing clients of services that also have a
 health check API

---
 plugins/govector/ir_clientwrapper.go  | 15 ++++++++++++---
 plugins/opentelemetry/ir_ot_client.go | 13 +++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index 3c54f5a..03209d5 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -60,9 +60,12 @@ func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	}
 	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		method.Returns = method.Returns[:len(method.Returns)-1]
-		i.Methods[name] = method
+		// Methods that were added on top of the server wrapper don't have the argument
+		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "govecctx" {
+			method.Arguments = method.Arguments[:n-1]
+			method.Returns = method.Returns[:len(method.Returns)-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -177,13 +180,19 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}
 
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
+{{$methods := .Service.Methods -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
+	{{if eq (len $f.Arguments) (len (index $methods $f.Name).Arguments) -}}
+	// The server wrapper doesn't have this method
+	return handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{- else -}}
 	var govec_bytes, govec_ret []byte
 	govec_bytes, _ = handler.logger.GetSendCtx(ctx, "Preparing to make request for function {{$f.Name}}")
 	{{RetVars $f "govec_ret" "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, govec_bytes)
 	handler.logger.UnpackReceiveCtx(ctx, "Unpacking response from server", govec_ret)
 	return
+	{{- end}}
 }
 {{end}}
 `
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index 46d1e18..c76b5f2 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -54,8 +54,11 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	}
 	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		i.Methods[name] = method
+		// Methods that were added on top of the server wrapper don't have the argument
+		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "traceCtx" {
+			method.Arguments = method.Arguments[:n-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -195,8 +198,13 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client
 {{$basename := .Service.BaseName -}}
 {{$receiver := .Name -}}
 {{$genSpans := .GenSpans -}}
+{{$methods := .Service.Methods -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
+	{{if eq (len $f.Arguments) (len (index $methods $f.Name).Arguments) -}}
+	// The server wrapper doesn't have this method
+	return handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{- else -}}
 	span := trace.SpanFromContext(ctx)
 	{{if $genSpans}}
 	tp, _ := handler.CollClient.GetTracerProvider(ctx)
@@ -210,6 +218,7 @@ func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.C
 		span.RecordError(err)
 	}
 	return
+	{{- end}}
 }
 {{end}}
 `
-- 
2.43.0


From 7289e4b322e6ce48267a453e647cf3124d9f4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 080/102] fix: tracing clients name the interface of the client
 that they wrap

---
 plugins/govector/ir_clientwrapper.go  | 30 ++++++++++-----------
 plugins/opentelemetry/ir_ot_client.go | 38 +++++++++++++--------------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index 03209d5..2120b70 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -126,13 +126,12 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 	}
 
 	client := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		Name:            wrapped.Name + "_GoVecClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.Name + "_GoVecServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.PackageName),
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		Name:      wrapped.Name + "_GoVecClientWrapper",
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
@@ -143,13 +142,12 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by GoVector Plugin
@@ -164,11 +162,11 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	Client {{.Imports.NameOf .Service.UserType}}
 	logger *govector.GoVecLogger
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
 	handler.logger = govector.GetLogger()
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index c76b5f2..e0e4d0e 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -141,15 +141,14 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 	}
 
 	server := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		CollIface:       coll_iface,
-		Name:            wrapped.Name + "_OTClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.Name + "_OTServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.PackageName),
-		GenSpans:        genClientSpans,
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		CollIface: coll_iface,
+		Name:      wrapped.Name + "_OTClientWrapper",
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.PackageName),
+		GenSpans:  genClientSpans,
 	}
 
 	server.Imports.AddPackages("context", "go.opentelemetry.io/otel/trace")
@@ -160,15 +159,14 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	CollIface       *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
-	GenSpans        bool
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	CollIface *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
+	GenSpans  bool
 }
 
 var clientSideTemplate = `// Blueprint: Auto-generated by OT Plugin
@@ -183,11 +181,11 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	Client {{.Imports.NameOf .Service.UserType}}
 	CollClient {{.Imports.NameOf .CollIface.UserType}}
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
 	handler.CollClient = coll_client
-- 
2.43.0


From 2fce47252114ad56c5388f26f950363c74d963be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 081/102] fix: generated files kept the end of a longer file
 that was there before

---
 plugins/dockercompose/dockergen/template.go | 2 +-
 plugins/golang/gogen/template.go            | 2 +-
 plugins/grpc/grpccodegen/marshallgen.go     | 2 +-
 plugins/grpc/grpccodegen/protogen.go        | 2 +-
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 plugins/linuxcontainer/linuxgen/template.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 679884a..33626a8 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index b16645e..9a80e50 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index e84c715..4a8bb3f 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -96,7 +96,7 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 05861df..735a250 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -182,7 +182,7 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index d3fcd2e..c45352e 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -14,7 +14,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 650080d..5ce874c 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e8d9055317c28b5757fe8a712430d47591d00876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 082/102] fix: modules of generated workspaces went missing or
 replaced each other

---
 plugins/golang/gogen/workspacebuilder.go | 65 +++++++++++-------------
 plugins/golang/helpers.go                |  5 +-
 plugins/workflow/workflowspec/service.go |  5 +-
 3 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 65e0678..556e96a 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -69,26 +69,19 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 
 	// Find an unused subdirectory for the module
 	splits := strings.Split(moduleName, "/")
-	moduleShortName := splits[len(splits)-1]
-	moduleSubDir := moduleShortName
-	for i := 0; ; i += 1 {
-		if _, subDirInUse := workspace.Modules[moduleSubDir]; !subDirInUse {
-			break
-		}
-		moduleSubDir = fmt.Sprintf("%s%v", moduleShortName, i)
-	}
+	moduleSubDir := workspace.unusedSubDir(splits[len(splits)-1])
 
 	// Create output directory
-	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleShortName)
+	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleSubDir)
 	err := ioutil.CheckDir(moduleDir, true)
 	if err != nil {
-		return "", blueprint.Errorf("cannot generate new module %s due to %s", moduleShortName, err.Error())
+		return "", blueprint.Errorf("cannot generate new module %s due to %s", moduleSubDir, err.Error())
 	}
 
 	// Save the module
-	workspace.Modules[moduleShortName] = moduleName
-	workspace.ModuleDirs[moduleName] = moduleShortName
-	workspace.GeneratedModules[moduleShortName] = moduleName
+	workspace.Modules[moduleSubDir] = moduleName
+	workspace.ModuleDirs[moduleName] = moduleSubDir
+	workspace.GeneratedModules[moduleSubDir] = moduleName
 
 	// Create the go.mod file
 	modfileContents := fmt.Sprintf("module %v\n\ngo 1.25", moduleName)
@@ -97,6 +90,18 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 	return moduleDir, os.WriteFile(modfile, []byte(modfileContents), 0755)
 }
 
+// Returns shortName if no module of the workspace is in the subdirectory of that name, and
+// otherwise a similar name that isn't in use
+func (workspace *WorkspaceBuilderImpl) unusedSubDir(shortName string) string {
+	subDir := shortName
+	for i := 0; ; i += 1 {
+		if _, subDirInUse := workspace.Modules[subDir]; !subDirInUse {
+			return subDir
+		}
+		subDir = fmt.Sprintf("%s%v", shortName, i)
+	}
+}
+
 // Implements [golang.WorkspaceBuilder]
 func (workspace *WorkspaceBuilderImpl) AddLocalModule(shortName string, moduleSrcPath string) (string, error) {
 	// First open and parse the go.mod file to make sure it exists and is valid
@@ -113,28 +118,18 @@ func (workspace *WorkspaceBuilderImpl) AddLocalModule(shortName string, moduleSr
 
 	modulePath := mod.Module.Mod.Path
 
-	// Check we haven't already declared a different module with the same name
-	if existingShortName, exists := workspace.ModuleDirs[modulePath]; exists {
-		if existingShortName != shortName {
-			return "", blueprint.Errorf("redeclaration of module %s as %s - already exists in %s", modulePath, shortName, existingShortName)
-		} else {
-			// TODO: here, check module versions are the same
-			return filepath.Join(workspace.WorkspaceDir, workspace.ModuleDirs[modulePath]), nil
-		}
-	} else {
-		workspace.ModuleDirs[modulePath] = shortName
-	}
-	if existingModulePath, exists := workspace.Modules[shortName]; exists {
-		if existingModulePath != modulePath {
-			return "", blueprint.Errorf("cannot copy module %s to %s as it already contains module %s", modulePath, shortName, existingModulePath)
-		} else {
-			return filepath.Join(workspace.WorkspaceDir, shortName), nil
-		}
-	} else {
-		workspace.Modules[shortName] = modulePath
+	// Check whether the module has already been added
+	if existingSubDir, exists := workspace.ModuleDirs[modulePath]; exists {
+		// TODO: here, check module versions are the same
+		return filepath.Join(workspace.WorkspaceDir, existingSubDir), nil
 	}
 
-	moduleDstPath := filepath.Join(workspace.WorkspaceDir, shortName)
+	// Other modules can have the same short name
+	moduleSubDir := workspace.unusedSubDir(shortName)
+	workspace.ModuleDirs[modulePath] = moduleSubDir
+	workspace.Modules[moduleSubDir] = modulePath
+
+	moduleDstPath := filepath.Join(workspace.WorkspaceDir, moduleSubDir)
 	err = ioutil.CheckDir(moduleDstPath, true)
 	if err != nil {
 		return "", err
@@ -200,7 +195,9 @@ func (workspace *WorkspaceBuilderImpl) Finish() error {
 
 	// Rewrite the go.mod files to redirect to local modules
 	for moduleSubDir, moduleName := range workspace.Modules {
-		workspace.updateModfile(moduleSubDir, moduleName)
+		if err := workspace.updateModfile(moduleSubDir, moduleName); err != nil {
+			return err
+		}
 	}
 
 	// Resolve imported packages for generated modules
diff --git a/plugins/golang/helpers.go b/plugins/golang/helpers.go
index 56711e8..ff34c4c 100644
--- a/plugins/golang/helpers.go
+++ b/plugins/golang/helpers.go
@@ -101,8 +101,9 @@ func AddToWorkspace(builder WorkspaceBuilder, mods ...*goparser.ParsedModule) er
 	for _, mod := range mods {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 488b2ca..89c1af0 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -46,8 +46,9 @@ func (s *Service) AddToWorkspace(builder golang.WorkspaceBuilder) error {
 	for _, mod := range s.Modules() {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From bce24251d9d44daf78c10c8b1111fafe7d997a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 083/102] fix: client processes ignored the logger and metric
 collector that were set for them

---
 plugins/goproc/wiring.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/plugins/goproc/wiring.go b/plugins/goproc/wiring.go
index e064c89..1f3a54d 100644
--- a/plugins/goproc/wiring.go
+++ b/plugins/goproc/wiring.go
@@ -157,6 +157,21 @@ func CreateClientProcess(spec wiring.WiringSpec, procName string, children ...st
 		if err != nil {
 			return nil, err
 		}
+
+		// Client processes have no default metric collector and logger, but others can be set
+		var metric_coll string
+		if spec.GetProperty(procName, "metricCollector", &metric_coll) == nil && metric_coll != "" {
+			if err := procNamespace.Get(metric_coll, &proc.metricProvider); err != nil {
+				return nil, err
+			}
+		}
+		var logger_name string
+		if spec.GetProperty(procName, "logger", &logger_name) == nil && logger_name != "" {
+			if err := procNamespace.Get(logger_name, &proc.logger); err != nil {
+				return nil, err
+			}
+		}
+
 		for _, child := range children {
 			var childNode ir.IRNode
 			if err := procNamespace.Get(child, &childNode); err != nil {
-- 
2.43.0


From 797745e5ebca2fbdbc882140d12619425e6a12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 084/102] fix: generated HTTP clients shared the connection
 maps of the default transport without synchronization

---
 plugins/http/httpcodegen/clientgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 1523f88..2c99dd2 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -57,12 +57,12 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 	if !ok {
 		return nil, errors.New("defaultRoundTripper not an *http.Transport")
 	}
-	defaultTransport := *defaultTransportPointer // dereference it to get a copy of the struct that the pointer points to
+	defaultTransport := defaultTransportPointer.Clone() // not a copy of the struct, which would share the state of connections
 	defaultTransport.MaxIdleConns = 60000
 	defaultTransport.MaxIdleConnsPerHost = 60000
 	defaultTransport.MaxConnsPerHost = 10000
 	client := &http.Client{
-		Transport: &defaultTransport,
+		Transport: defaultTransport,
 	}
 	c := &{{.Name}}{}
 	c.Client = client
-- 
2.43.0


From 11fc968cf7ff747d4963856882754d557d4a0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 085/102] fix: the parser described files that are not part of
 the build and nested modules

---
 plugins/golang/goparser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 31e1577..74e131b 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -6,6 +6,7 @@ package goparser
 import (
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"go/types"
@@ -177,8 +178,20 @@ func (mod *ParsedModule) Load() error {
 		if !info.IsDir() {
 			return nil
 		}
+		if path != mod.SrcDir {
+			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
+				// A nested module is not part of this module
+				return filepath.SkipDir
+			}
+		}
+
+		// Only parse the files that the go command compiles
+		isBuilt := func(file os.FileInfo) bool {
+			matches, err := build.Default.MatchFile(path, file.Name())
+			return err == nil && matches && !strings.HasSuffix(file.Name(), "_test.go")
+		}
 
-		pkgs, err := parser.ParseDir(&fset, path, nil, parser.ParseComments)
+		pkgs, err := parser.ParseDir(&fset, path, isBuilt, parser.ParseComments)
 		if err != nil {
 			return blueprint.Errorf("unable to parse package %v due to %s", path, err.Error())
 		}
-- 
2.43.0


From 6a55c9354635271227f9b3d3b91fc0ac2a86e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 086/102] fix: launch scripts started dependencies twice, in
 the wrong directory, and ignored their failures

---
 plugins/linuxcontainer/linuxgen/run.sh.go   | 3 ++-
 plugins/linuxcontainer/linuxgen/runfunc.go  | 4 ++--
 plugins/linuxcontainer/linuxgen/template.go | 4 +---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 0f656ba..7148867 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -129,8 +129,9 @@ run_all() {
 		return 1
 	fi
 
+	# Start the processes that have not been started already as the dependency of another
 	{{range $name, $f := .RunFuncs -}}
-	{{RunFuncName $name}}
+	{{Get $name}}
 	{{end}}
 	wait
 }
diff --git a/plugins/linuxcontainer/linuxgen/runfunc.go b/plugins/linuxcontainer/linuxgen/runfunc.go
index 3180c60..ccb9321 100644
--- a/plugins/linuxcontainer/linuxgen/runfunc.go
+++ b/plugins/linuxcontainer/linuxgen/runfunc.go
@@ -50,8 +50,6 @@ type runFuncTemplateArgs struct {
 }
 
 var runFuncTemplate = `{{RunFuncName .Name}}() {
-	cd $WORKSPACE_DIR
-	
 	{{ range $i, $dep := .Dependencies -}}
 	{{Get $dep.Name}}
 
@@ -61,6 +59,8 @@ var runFuncTemplate = `{{RunFuncName .Name}}() {
 		{{.RunFuncBody}}
 	}
 
+	# Starting the dependencies can have changed the directory
+	cd "$WORKSPACE_DIR"
 	if run_{{RunFuncName .Name}}; then
 		if [ -z "${ {{- EnvVarName .Name}}+x}" ]; then
 			echo "${WORKSPACE_NAME} error starting {{.Name}}: function {{RunFuncName .Name}} did not set {{EnvVarName .Name}}"
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 5ce874c..0dcbb17 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -62,9 +62,7 @@ func (e *templateExecutor) exec(name string, body string, args any) (string, err
 
 func (e *templateExecutor) Get(name string) (string, error) {
 	tmpl := `if [ -z "${ {{- EnvVarName .}}+x}" ]; then
-		if ! {{RunFuncName .}}; then
-			return $?
-		fi
+		{{RunFuncName .}} || return $?
 	fi`
 	return e.exec("Get", tmpl, name)
 }
-- 
2.43.0


From 300fae5fee7db640da6358898d094065b418bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 087/102] fix: values with spaces did not reach processes whole

---
 plugins/goproc/linuxgen/goproc_runfunc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/goproc/linuxgen/goproc_runfunc.go b/plugins/goproc/linuxgen/goproc_runfunc.go
index 507c569..44a1354 100644
--- a/plugins/goproc/linuxgen/goproc_runfunc.go
+++ b/plugins/goproc/linuxgen/goproc_runfunc.go
@@ -38,7 +38,7 @@ var binaryRunFuncTemplate = `
 run_{{RunFuncName .Name}} {
 	cd {{.Name}}
     ./{{.Name}}
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} --{{$arg.Name}}="${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
@@ -48,7 +48,7 @@ run_{{RunFuncName .Name}} {
 	export CGO_ENABLED=1
 	cd {{.Name}}/{{.Name}}
 	go run .
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} --{{$arg.Name}}="${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
-- 
2.43.0


From 13a2d0c909ab471dbebb4ed7d6b0e0e61d4bdabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 088/102] fix: launch scripts took variables of the environment
 for started processes

---
 plugins/linuxcontainer/linuxgen/run.sh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 7148867..b45b061 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -131,6 +131,9 @@ run_all() {
 
 	# Start the processes that have not been started already as the dependency of another
 	{{range $name, $f := .RunFuncs -}}
+	unset {{EnvVarName $name}}
+	{{end}}
+	{{range $name, $f := .RunFuncs -}}
 	{{Get $name}}
 	{{end}}
 	wait
-- 
2.43.0


From 074608e8a71255cb65811c7d82b9fd398aa68f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 089/102] fix: processes with equivalent names replaced each
 other in launch scripts

---
 plugins/linuxcontainer/deploy.go          |  6 ++++--
 plugins/linuxcontainer/linuxgen/run.sh.go | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/plugins/linuxcontainer/deploy.go b/plugins/linuxcontainer/deploy.go
index b086729..c55dac6 100644
--- a/plugins/linuxcontainer/deploy.go
+++ b/plugins/linuxcontainer/deploy.go
@@ -147,8 +147,10 @@ func (ws *filesystemWorkspace) AddBuildScript(path string) error {
 func (ws *filesystemWorkspace) DeclareRunCommand(name string, runfunc string, deps ...ir.IRNode) error {
 	// Generate the runfunc
 	runfunc_impl, err := linuxgen.GenerateRunFunc(name, runfunc, deps...)
-	ws.Run.Add(name, runfunc_impl, deps...)
-	return err
+	if err != nil {
+		return err
+	}
+	return ws.Run.Add(name, runfunc_impl, deps...)
 }
 
 // Implements linux.ProcessWorkspace
diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index b45b061..bcf5208 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -3,7 +3,9 @@ package linuxgen
 import (
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
+	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
 
 /*
@@ -51,7 +53,15 @@ func (run *RunScript) Require(node ir.IRNode) {
 	run.AllNodes[node.Name()] = node
 }
 
-func (run *RunScript) Add(procName, runfunc string, deps ...ir.IRNode) {
+// Returns an error if another process with the same name, or whose name maps to the same bash function
+// and environment variable, has already been added.
+func (run *RunScript) Add(procName, runfunc string, deps ...ir.IRNode) error {
+	for existing := range run.RunFuncs {
+		if linux.FuncName(existing) == linux.FuncName(procName) {
+			return blueprint.Errorf("%v has run commands for both %v and %v, which have the same bash function %v", run.WorkspaceName, existing, procName, linux.FuncName(procName))
+		}
+	}
+
 	// Save the runfunc
 	run.RunFuncs[procName] = runfunc
 
@@ -59,6 +69,7 @@ func (run *RunScript) Add(procName, runfunc string, deps ...ir.IRNode) {
 	for _, node := range deps {
 		run.AllNodes[node.Name()] = node
 	}
+	return nil
 }
 
 func (run *RunScript) GenerateRunScript() error {
-- 
2.43.0


From 21f5f1ea54b38b93c7c777bb71622dc6e98e7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 090/102] fix: build scripts outside of the workspace were not
 refused

---
 plugins/linuxcontainer/linuxgen/build.sh.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugins/linuxcontainer/linuxgen/build.sh.go b/plugins/linuxcontainer/linuxgen/build.sh.go
index fdacccc..6eddbfa 100644
--- a/plugins/linuxcontainer/linuxgen/build.sh.go
+++ b/plugins/linuxcontainer/linuxgen/build.sh.go
@@ -2,6 +2,7 @@ package linuxgen
 
 import (
 	"path/filepath"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 )
@@ -53,6 +54,9 @@ func (d *BuildScript) Add(filePath string) error {
 		return blueprint.Errorf("invalid build script path %v", filePath)
 	}
 	pathInWorkspace, err := filepath.Rel(d.WorkspaceDir, filepath.Clean(filePath))
+	if err == nil && (pathInWorkspace == ".." || strings.HasPrefix(pathInWorkspace, ".."+string(filepath.Separator))) {
+		err = blueprint.Errorf("path is outside of the workspace")
+	}
 	if err != nil {
 		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v; error: %v", filePath, d.WorkspaceDir, err.Error())
 	}
-- 
2.43.0


From 43cc1917b5c1a3a16cb3c15f2b3cc6e98fe6ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:35 +0000
Subject: [PATCH 091/102] fix: docker-compose files with volumes, commands or
 custom configuration were not well-formed

---
 .../dockercompose/dockergen/dockercompose.go  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 420c5a0..d45834d 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -211,21 +211,21 @@ services:
      - {{$name}}={{$value}}
     {{- end}}
     {{- end}}
-	{{- if .Volumes}}
-	volumes:
-	{{- range $name, $value := .Volumes}}
-	 - {{$name}}:{{$value}}
-	{{- end}}
-	{{- end}}
-	{{- if .CustomCommand}}
-	command:
-	{{- range $_, $val := .CustomCommand}}
-	 - {{$val}}
-	{{- end}}
-	{{- end}}
-	{{- range $key, $val := .CustomConf}}
-	{{$key}}: {{$val}}
-	{{- end}}
+    {{- if .Volumes}}
+    volumes:
+    {{- range $name, $value := .Volumes}}
+     - {{$name}}:{{$value}}
+    {{- end}}
+    {{- end}}
+    {{- if .CustomCommand}}
+    command:
+    {{- range $_, $val := .CustomCommand}}
+     - {{$val}}
+    {{- end}}
+    {{- end}}
+    {{- range $key, $val := .CustomConf}}
+    {{$key}}: {{$val}}
+    {{- end}}
     restart: always
 {{end}}
 `
-- 
2.43.0


From e94652a1e716abde719e5596ff953594e1f0ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:35 +0000
Subject: [PATCH 092/102] fix: docker-compose files lost volumes mounted twice
 and did not declare named volumes

---
 .../dockercompose/dockergen/dockercompose.go  | 34 ++++++++++++++++---
 plugins/dockercompose/dockergen/template.go   |  2 ++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index d45834d..7a20222 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -3,6 +3,8 @@ package dockergen
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
@@ -33,7 +35,7 @@ type instance struct {
 	Config            map[string]string   // Map from environment variable name to value
 	Passthrough       map[string]struct{} // Environment variables that just get passed through to the container
 	CustomCommand     []string            // Custom command used to start the container
-	Volumes           map[string]string   // Map volumes from host to container
+	Volumes           map[string]string   // Map from path within the container to the host path or volume mounted there
 	CustomConf        map[string]string   // Map custom keys to values at the top-level of the docker file
 }
 
@@ -49,6 +51,24 @@ func NewDockerComposeFile(workspaceName, workspaceDir, fileName string) *DockerC
 	}
 }
 
+// The volumes used by instances that aren't paths of the host; docker-compose requires these to be declared
+func (d *DockerComposeFile) NamedVolumes() []string {
+	names := make(map[string]struct{})
+	for _, instance := range d.Instances {
+		for _, src := range instance.Volumes {
+			if src != "" && !strings.ContainsAny(src[:1], "./~$") {
+				names[src] = struct{}{}
+			}
+		}
+	}
+	sorted := make([]string, 0, len(names))
+	for name := range names {
+		sorted = append(sorted, name)
+	}
+	sort.Strings(sorted)
+	return sorted
+}
+
 func (d *DockerComposeFile) Generate() error {
 	slog.Info(fmt.Sprintf("Generating %v/%v", d.WorkspaceName, d.FileName))
 	return ExecuteTemplateToFile("docker-compose", dockercomposeTemplate, d, d.FilePath)
@@ -107,7 +127,7 @@ func (d *DockerComposeFile) AddVolume(instanceName string, src string, dst strin
 	if err != nil {
 		return err
 	}
-	instance.Volumes[src] = dst
+	instance.Volumes[dst] = src
 	return nil
 }
 
@@ -213,8 +233,8 @@ services:
     {{- end}}
     {{- if .Volumes}}
     volumes:
-    {{- range $name, $value := .Volumes}}
-     - {{$name}}:{{$value}}
+    {{- range $dst, $src := .Volumes}}
+     - {{Quote (print $src ":" $dst)}}
     {{- end}}
     {{- end}}
     {{- if .CustomCommand}}
@@ -228,4 +248,10 @@ services:
     {{- end}}
     restart: always
 {{end}}
+{{- with .NamedVolumes}}
+volumes:
+{{- range .}}
+  {{.}}:
+{{- end}}
+{{end}}
 `
diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 33626a8..467c62e 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -3,6 +3,7 @@ package dockergen
 import (
 	"bytes"
 	"os"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -44,6 +45,7 @@ func newTemplateExecutor(args any) *templateExecutor {
 
 	e.Funcs["EnvVarName"] = e.EnvVarName
 	e.Funcs["Title"] = e.TitleCase
+	e.Funcs["Quote"] = strconv.Quote // the escape sequences of YAML include those of Go
 
 	return e
 }
-- 
2.43.0


From a39240065247a0b11e7c03ea21283a5a1b7fe8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:35 +0000
Subject: [PATCH 093/102] fix: environment variables and commands did not reach
 containers as they were set

---
 plugins/dockercompose/deploy.go                  | 14 ++++++++++++--
 plugins/dockercompose/dockergen/dockercompose.go |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index b391404..7f92104 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/ioutil"
@@ -120,14 +121,23 @@ func (d *dockerComposeWorkspace) DeclareLocalImage(instanceName string, imageDir
 	return d.DockerComposeFile.AddBuildInstance(instanceName, imageDir)
 }
 
+// Prevents docker-compose from substituting variables in a literal value
+func escape(val string) string {
+	return strings.ReplaceAll(val, "$", "$$")
+}
+
 // Implements docker.ContainerWorkspace
 func (d *dockerComposeWorkspace) SetEnvironmentVariable(instanceName string, key string, val string) error {
-	return d.DockerComposeFile.AddEnvVar(instanceName, key, val)
+	return d.DockerComposeFile.AddEnvVar(instanceName, key, escape(val))
 }
 
 // Implements docker.ContainerWorkspace
 func (d *dockerComposeWorkspace) SetCustomCommand(instanceName string, command []string) error {
-	return d.DockerComposeFile.SetCustomCommand(instanceName, command)
+	escaped := make([]string, len(command))
+	for i, arg := range command {
+		escaped[i] = escape(arg)
+	}
+	return d.DockerComposeFile.SetCustomCommand(instanceName, escaped)
 }
 
 // Implements docker.ContainerWorkspace
diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 7a20222..8040e2a 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -228,7 +228,7 @@ services:
     {{- if .Config}}
     environment:
     {{- range $name, $value := .Config}}
-     - {{$name}}={{$value}}
+     - {{Quote (print $name "=" $value)}}
     {{- end}}
     {{- end}}
     {{- if .Volumes}}
@@ -240,7 +240,7 @@ services:
     {{- if .CustomCommand}}
     command:
     {{- range $_, $val := .CustomCommand}}
-     - {{$val}}
+     - {{Quote $val}}
     {{- end}}
     {{- end}}
     {{- range $key, $val := .CustomConf}}
-- 
2.43.0


From ce9dff8a8b799ef1936310027414e38f9aad8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 094/102] fix: kubernetes containers lost addresses, commands
 and images, and their environment variables were escaped as HTML

---
 plugins/kubernetes/kubeconfig/codegen.go          |  2 +-
 plugins/kubernetes/kubepod/deploy.go              | 15 ++++++++++++---
 .../kubernetes/kubepod/deploygen/deployfile.go    | 10 ++++++++--
 plugins/kubernetes/kubetemplate/template.go       |  4 +++-
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/plugins/kubernetes/kubeconfig/codegen.go b/plugins/kubernetes/kubeconfig/codegen.go
index 2a95c9f..2129376 100644
--- a/plugins/kubernetes/kubeconfig/codegen.go
+++ b/plugins/kubernetes/kubeconfig/codegen.go
@@ -41,6 +41,6 @@ metadata:
   name: {{.Name}}
 data:
   {{- range $k, $v := .Data}}
-  {{$k}}: {{$v}}
+  {{$k}}: {{Quote $v}}
   {{- end -}}
 `
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 3c7e01b..dea99d5 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -121,16 +121,21 @@ func (p *kubeDeploymentWorkspace) DeclareLocalImage(instanceName string, imageDi
 	slog.Info("Inside DeclareLocalImage")
 	p.InstanceArgs[instanceName] = args
 	// For now set image to instanceName
-	var image string
+	image := instanceName
 	if p.DockerRegistryAddr != "" {
 		image = p.DockerRegistryAddr + "/" + instanceName
 	}
 	return p.F.AddImageInstance(instanceName, image)
 }
 
+// Prevents kubernetes from expanding variables in a literal value
+func escape(val string) string {
+	return strings.ReplaceAll(val, "$", "$$")
+}
+
 // Implements docker.ContainerWorkspace
 func (p *kubeDeploymentWorkspace) SetEnvironmentVariable(instanceName string, key string, val string) error {
-	return p.F.AddEnvVar(instanceName, key, val)
+	return p.F.AddEnvVar(instanceName, key, escape(val))
 }
 
 // Generates the pod config file
@@ -251,7 +256,11 @@ func (p *kubeDeploymentWorkspace) AddVolume(instanceName string, src string, dst
 
 // Implements docker.ContainerWorkspace
 func (p *kubeDeploymentWorkspace) SetCustomCommand(instanceName string, command []string) error {
-	return p.F.SetCustomCommand(instanceName, command)
+	escaped := make([]string, len(command))
+	for i, arg := range command {
+		escaped[i] = escape(arg)
+	}
+	return p.F.SetCustomCommand(instanceName, escaped)
 }
 
 func (p *kubeDeploymentWorkspace) ImplementsBuildContext()       {}
diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..a07c219 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,11 +169,17 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if .CustomCommand}}
+          args:
+          {{- range $_, $arg := .CustomCommand}}
+            - {{Quote $arg}}
+          {{- end}}
+          {{- end}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-              value: "{{$value}}"
+              value: {{Quote $value}}
           {{- end}}
           {{- range $name, $_ := .ConfigMap}}
             - name: {{$name}}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index c45352e..3da63ef 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -2,9 +2,10 @@ package kubetemplate
 
 import (
 	"bytes"
-	"html/template"
 	"os"
+	"strconv"
 	"strings"
+	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
@@ -40,6 +41,7 @@ func newTemplateExecutor(args any) *templateExecutor {
 	e.Funcs["EnvVarName"] = e.EnvVarName
 	e.Funcs["Title"] = e.TitleCase
 	e.Funcs["KubernetesName"] = e.KubernetesName
+	e.Funcs["Quote"] = strconv.Quote // the escape sequences of YAML include those of Go
 
 	return e
 }
-- 
2.43.0


From d356b95d3e8b121a3591c1e4096db0c0296e35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 095/102] fix: kubernetes manifests had invalid names, and pods
 of equivalent names replaced each other

---
 plugins/kubernetes/ir.go                           |  7 +++++++
 plugins/kubernetes/kubepod/deploy.go               |  5 +++--
 plugins/kubernetes/kubepod/deploygen/deployfile.go |  5 +++++
 plugins/kubernetes/kubetemplate/template.go        | 10 +++++++---
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/plugins/kubernetes/ir.go b/plugins/kubernetes/ir.go
index 7b802eb..cffecfe 100644
--- a/plugins/kubernetes/ir.go
+++ b/plugins/kubernetes/ir.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"log/slog"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubeconfig"
@@ -43,7 +44,13 @@ func (n *Application) GenerateArtifacts(dir string) error {
 	addrs := make(map[string]*kubeAddrInfo)
 	var dials []*address.DialConfig
 	nodes := ir.Filter[*kubepod.PodDeployment](n.Nodes)
+	podNames := make(map[string]string)
 	for _, node := range nodes {
+		name := kubepod.KubernetesName(node.PodName)
+		if other, exists := podNames[name]; exists {
+			return blueprint.Errorf("pods %v and %v have the same name %v in kubernetes", other, node.PodName, name)
+		}
+		podNames[name] = node.PodName
 		err := node.GenerateArtifacts(dir)
 		if err != nil {
 			return err
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index dea99d5..ddc5c97 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -11,6 +11,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/docker"
+	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubetemplate"
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 	"golang.org/x/exp/slog"
 
@@ -44,9 +45,9 @@ type kubeDeploymentWorkspace struct {
 }
 
 // Converts a given name into a format compatible with Kubernetes
-// Replaces "_" with "-"
+// Replaces "_" and "." with "-" and uppercase letters with lowercase ones
 func KubernetesName(name string) string {
-	return strings.ReplaceAll(name, "_", "-")
+	return kubetemplate.KubernetesName(name)
 }
 
 // Implements ir.ArtifactGenerator
diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index a07c219..dde3255 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -132,6 +132,11 @@ func (k *KubeDeploymentFile) addInstance(instanceName string, image string) erro
 	if _, exists := k.Instances[instanceName]; exists {
 		return blueprint.Errorf("re-declaration of container instance %v of image %v", instanceName, image)
 	}
+	for other := range k.Instances {
+		if kubetemplate.KubernetesName(other) == kubetemplate.KubernetesName(instanceName) {
+			return blueprint.Errorf("container instances %v and %v have the same name in kubernetes", other, instanceName)
+		}
+	}
 	instance := &instance{
 		InstanceName:  instanceName,
 		Image:         image,
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index 3da63ef..57f5533 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -65,7 +65,11 @@ func (e *templateExecutor) TitleCase(arg string) (string, error) {
 }
 
 func (e *templateExecutor) KubernetesName(name string) (string, error) {
-	s := strings.ReplaceAll(name, "_", "-")
-	s = strings.ReplaceAll(s, ".", "-")
-	return s, nil
+	return KubernetesName(name), nil
+}
+
+// Converts a given name into a format compatible with Kubernetes, which permits
+// only lowercase letters, numbers, and dashes
+func KubernetesName(name string) string {
+	return strings.ToLower(strings.NewReplacer("_", "-", ".", "-").Replace(name))
 }
-- 
2.43.0


From 032601ea85629f39bd246565a7ff41fc4c72ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 096/102] fix: settings of a container that share an
 environment variable replaced each other

---
 plugins/dockercompose/deploy.go      |  4 ++++
 plugins/kubernetes/kubepod/deploy.go |  3 +++
 plugins/linux/util.go                | 14 ++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index 7f92104..c74c0da 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -12,6 +12,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/docker"
 	"github.com/blueprint-uservices/blueprint/plugins/dockercompose/dockergen"
+	"github.com/blueprint-uservices/blueprint/plugins/linux"
 	"golang.org/x/exp/slog"
 )
 
@@ -171,6 +172,9 @@ func (d *dockerComposeWorkspace) Finish() error {
 func (d *dockerComposeWorkspace) processArgNodes() error {
 	addresses := make(map[string]string)
 	for instanceName, instanceArgs := range d.InstanceArgs {
+		if err := linux.CheckEnvVars(instanceArgs...); err != nil {
+			return err
+		}
 		binds, _, remaining := address.Split(instanceArgs)
 
 		// First handle the non-address arguments to the node, which will need to be passed
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index ddc5c97..5518787 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -197,6 +197,9 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 	// (2) Set environment variables for containers
 	// (3) Expose container ports externally
 	for instanceName, instanceArgs := range p.InstanceArgs {
+		if err := linux.CheckEnvVars(instanceArgs...); err != nil {
+			return err
+		}
 		binds, dials, remaining := address.Split(instanceArgs)
 
 		// Handle the instanceArgs that are regular config args and not address related
diff --git a/plugins/linux/util.go b/plugins/linux/util.go
index b6fc898..ac80a98 100644
--- a/plugins/linux/util.go
+++ b/plugins/linux/util.go
@@ -3,6 +3,7 @@ package linux
 import (
 	"strings"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
 
@@ -18,6 +19,19 @@ func EnvVar(name string) string {
 	return strings.ToUpper(ir.CleanName(name))
 }
 
+// Returns an error if different nodes share an environment variable.
+func CheckEnvVars(nodes ...ir.IRNode) error {
+	seen := make(map[string]ir.IRNode)
+	for _, node := range nodes {
+		v := EnvVar(node.Name())
+		if other, exists := seen[v]; exists && other != node {
+			return blueprint.Errorf("%v and %v both use the environment variable %v", other.Name(), node.Name(), v)
+		}
+		seen[v] = node
+	}
+	return nil
+}
+
 // A utility function for use when using commands.
 // Converts a string to a compatible command name.
 // Punctuation is converted to underscores, and alpha are made uppercase.
-- 
2.43.0


From 64c3c26a4d43a7590186ac25899448cfa6992099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 097/102] fix: the replace directives of generated modules were
 in random order

---
 plugins/golang/gogen/workspacebuilder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 556e96a..138836e 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"sort"
 	"strings"
 
 	"path/filepath"
@@ -217,11 +218,15 @@ func (workspace *WorkspaceBuilderImpl) updateModfile(moduleSubDir string, module
 		return err
 	}
 
-	// Now we add replace directives
+	// Now we add replace directives, always in the same order
+	var otherModuleSubDirs []string
 	for otherModuleSubDir, otherModuleName := range workspace.Modules {
-		if moduleName == otherModuleName {
-			continue
+		if moduleName != otherModuleName {
+			otherModuleSubDirs = append(otherModuleSubDirs, otherModuleSubDir)
 		}
+	}
+	sort.Strings(otherModuleSubDirs)
+	for _, otherModuleSubDir := range otherModuleSubDirs {
 		otherModfile, err := workspace.readModfile(otherModuleSubDir)
 		if err != nil {
 			return err
-- 
2.43.0


From 9eaa88f12f67783e1c1ef440cbdb9bb0ff728347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 098/102] fix: the ports of containers in kubernetes pods were
 assigned in random order

---
 plugins/kubernetes/kubepod/deploy.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 5518787..086c629 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -165,6 +166,12 @@ func asMap[T any](s []*T) map[*T]struct{} {
 //
 // We don't pick external-facing ports for any addresses; these will be set by the caller or user.
 func (p *kubeDeploymentWorkspace) processArgNodes() error {
+	// Go through the instances in a fixed order, because it determines the ports
+	var instanceNames []string
+	for instanceName := range p.InstanceArgs {
+		instanceNames = append(instanceNames, instanceName)
+	}
+	sort.Strings(instanceNames)
 
 	// (1) Assign ports to containers
 	// Servers like backends will already be pre-bound to specific ports.  Other servers
@@ -176,7 +183,8 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 	var localAddresses map[string]string
 	{
 		localAddresses = make(map[string]string)
-		for _, instanceArgs := range p.InstanceArgs {
+		for _, instanceName := range instanceNames {
+			instanceArgs := p.InstanceArgs[instanceName]
 			allBinds = append(allBinds, ir.Filter[*address.BindConfig](instanceArgs)...)
 		}
 
@@ -196,7 +204,8 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 
 	// (2) Set environment variables for containers
 	// (3) Expose container ports externally
-	for instanceName, instanceArgs := range p.InstanceArgs {
+	for _, instanceName := range instanceNames {
+		instanceArgs := p.InstanceArgs[instanceName]
 		if err := linux.CheckEnvVars(instanceArgs...); err != nil {
 			return err
 		}
-- 
2.43.0


From e892bcc09760e6585c571a841641edc088d29360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 099/102] fix: workflow services with several candidates got a
 random interface, struct or constructor

---
 plugins/workflow/workflowspec/service.go | 39 ++++++++++++++++--------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 89c1af0..fde0272 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -3,6 +3,7 @@ package workflowspec
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -160,14 +161,28 @@ func isInterfaceAValidService(iface *goparser.ParsedInterface) (bool, error) {
 	return true, nil
 }
 
+// Returns the values of m in the order of their keys, so that the same candidates are always found first
+func sorted[T any](m map[string]T) []T {
+	var keys []string
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	var values []T
+	for _, key := range keys {
+		values = append(values, m[key])
+	}
+	return values
+}
+
 /*
 For a parsed struct, finds all valid interfaces that the struct implements
 */
 func (spec *WorkflowSpec) findInterfacesFor(struc *goparser.ParsedStruct) []*goparser.ParsedInterface {
 	var ifaces []*goparser.ParsedInterface
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, iface := range pkg.Interfaces {
+	for _, mod := range sorted(spec.Modules.Modules) {
+		for _, pkg := range sorted(mod.Packages) {
+			for _, iface := range sorted(pkg.Interfaces) {
 				if valid, _ := implements(struc, iface); valid {
 					ifaces = append(ifaces, iface)
 				}
@@ -182,9 +197,9 @@ For a parsed interface, finds all valid struct that implement the provided inter
 */
 func (spec *WorkflowSpec) findStructsFor(iface *goparser.ParsedInterface) []*goparser.ParsedStruct {
 	var structs []*goparser.ParsedStruct
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, struc := range pkg.Structs {
+	for _, mod := range sorted(spec.Modules.Modules) {
+		for _, pkg := range sorted(mod.Packages) {
+			for _, struc := range sorted(pkg.Structs) {
 				if valid, _ := implements(struc, iface); valid {
 					structs = append(structs, struc)
 				}
@@ -212,9 +227,9 @@ func implements(struc *goparser.ParsedStruct, iface *goparser.ParsedInterface) (
 
 func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterface) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
+	for _, mod := range sorted(spec.Modules.Modules) {
+		for _, pkg := range sorted(mod.Packages) {
+			for _, f := range sorted(pkg.Funcs) {
 				if isConstructorOfIface(f, iface) {
 					constructors = append(constructors, f)
 				}
@@ -226,9 +241,9 @@ func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterfac
 
 func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
+	for _, mod := range sorted(spec.Modules.Modules) {
+		for _, pkg := range sorted(mod.Packages) {
+			for _, f := range sorted(pkg.Funcs) {
 				if isConstructorOfStruct(f, struc) {
 					constructors = append(constructors, f)
 				}
-- 
2.43.0


From 94b2fc4a0d590d6f3baa8c1110b8bb163b461f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 100/102] fix: the redis cache merged results into the
 destination, and panicked on absent keys in Mget

---
 runtime/core/backend/decode.go | 25 +++++++++++++++++++++++++
 runtime/plugins/redis/cache.go | 23 +++++++++++++++++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)
 create mode 100644 runtime/core/backend/decode.go

diff --git a/runtime/core/backend/decode.go b/runtime/core/backend/decode.go
new file mode 100644
index 0000000..56bd002
--- /dev/null
+++ b/runtime/core/backend/decode.go
@@ -0,0 +1,25 @@
+package backend
+
+import (
+	"encoding/json"
+	"reflect"
+
+	"github.com/pkg/errors"
+)
+
+// Decodes the JSON encoding of a value into dst, which must be a pointer.
+//
+// Unlike [json.Unmarshal], which keeps the parts of dst that data does not mention (e.g. the entries of a map, or the
+// fields of a struct), the value of dst is replaced. dst is unchanged if data cannot be decoded.
+func DecodeJSON(data []byte, dst any) error {
+	ptr := reflect.ValueOf(dst)
+	if ptr.Kind() != reflect.Pointer || ptr.IsNil() {
+		return errors.Errorf("unable to copy result to type %v", reflect.TypeOf(dst))
+	}
+	fresh := reflect.New(ptr.Type().Elem())
+	if err := json.Unmarshal(data, fresh.Interface()); err != nil {
+		return err
+	}
+	ptr.Elem().Set(fresh.Elem())
+	return nil
+}
diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index 399669e..34518ad 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -5,7 +5,9 @@ import (
 	"context"
 	"encoding/json"
 
+	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	redis_impl "github.com/go-redis/redis/v8"
+	"github.com/pkg/errors"
 )
 
 // A redis client wrapper that implements the [backend.Cache] interface
@@ -44,7 +46,7 @@ func (r *RedisCache) Get(ctx context.Context, key string, value interface{}) (bo
 	if err != nil {
 		return false, err
 	}
-	return true, json.Unmarshal([]byte(val), value)
+	return true, backend.DecodeJSON([]byte(val), value)
 }
 
 // Implements the backend.Cache interface
@@ -59,12 +61,23 @@ func (r *RedisCache) Delete(ctx context.Context, key string) error {
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mget received %v keys and %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	result, err := r.client.MGet(ctx, keys...).Result()
 	if err != nil {
 		return err
 	}
 	for idx, res := range result {
-		err := json.Unmarshal([]byte(res.(string)), values[idx])
+		val, exists := res.(string)
+		if !exists {
+			// Key doesn't exist
+			continue
+		}
+		err := backend.DecodeJSON([]byte(val), values[idx])
 		if err != nil {
 			return err
 		}
@@ -74,6 +87,12 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mset received %v keys and %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	kv_map := make(map[string]string)
 	for idx, key := range keys {
 		val, err := json.Marshal(values[idx])
-- 
2.43.0


From 9f0730c3287c0aaf9834369fd08fba1a58295da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 101/102] fix: the memcached cache refused absent keys in Incr
 and Delete, and raced in Mset

---
 runtime/plugins/memcached/cache.go | 50 +++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index ef91b11..0b73d38 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -4,10 +4,10 @@ package memcached
 import (
 	"context"
 	"encoding/json"
-	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/bradfitz/gomemcache/memcache"
+	"github.com/pkg/errors"
 )
 
 // A memcached client wrapper that implements the [backend.Cache] interface
@@ -43,29 +43,50 @@ func (m *Memcached) Get(ctx context.Context, key string, value interface{}) (boo
 	if err != nil {
 		return false, err
 	}
-	return true, json.Unmarshal(it.Value, value)
+	return true, backend.DecodeJSON(it.Value, value)
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Incr(ctx context.Context, key string) (int64, error) {
-	val, err := m.Client.Increment(key, 1)
-	return int64(val), err
+	for {
+		val, err := m.Client.Increment(key, 1)
+		if err != memcache.ErrCacheMiss {
+			return int64(val), err
+		}
+		// The server only increments existing keys; counting starts from zero
+		err = m.Client.Add(&memcache.Item{Key: key, Value: []byte("1")})
+		if err != memcache.ErrNotStored {
+			return 1, err
+		}
+		// Somebody else added the key in the meantime
+		if ctx.Err() != nil {
+			return 0, ctx.Err()
+		}
+	}
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Delete(ctx context.Context, key string) error {
-	return m.Client.Delete(key)
+	err := m.Client.Delete(key)
+	if err == memcache.ErrCacheMiss {
+		// Deleting a key that doesn't exist is not an error
+		return nil
+	}
+	return err
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mget received %v keys and %v values", len(keys), len(values))
+	}
 	val_map, err := m.Client.GetMulti(keys)
 	if err != nil {
 		return err
 	}
 	for idx, key := range keys {
 		if val, ok := val_map[key]; ok {
-			err := json.Unmarshal(val.Value, values[idx])
+			err := backend.DecodeJSON(val.Value, values[idx])
 			if err != nil {
 				return err
 			}
@@ -76,19 +97,12 @@ func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mset(ctx context.Context, keys []string, values []interface{}) error {
-	var wg sync.WaitGroup
-	wg.Add(len(keys))
-	err_chan := make(chan error, len(keys))
-	for idx, key := range keys {
-		go func(key string, val interface{}) {
-			defer wg.Done()
-			err_chan <- m.Put(ctx, key, val)
-		}(key, values[idx])
+	if len(keys) != len(values) {
+		return errors.Errorf("mset received %v keys and %v values", len(keys), len(values))
 	}
-	wg.Wait()
-	close(err_chan)
-	for err := range err_chan {
-		if err != nil {
+	// In order, because the same key can occur more than once
+	for idx, key := range keys {
+		if err := m.Put(ctx, key, values[idx]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 00e2c8c5a0e41348e390f475eee102002cf8bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 102/102] fix: the rabbitmq queue could not deliver structs or
 integers, nor notice a lost connection

---
 runtime/plugins/rabbitmq/queue.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 1768eaa..27fa638 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -4,6 +4,7 @@ package rabbitmq
 import (
 	"context"
 	"encoding/json"
+	"errors"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	amqp "github.com/rabbitmq/amqp091-go"
@@ -43,10 +44,11 @@ func getBytes(key interface{}) ([]byte, error) {
 	return json.Marshal(key)
 }
 
-func decodeBytes(val []byte) (interface{}, error) {
-	var res interface{}
-	err := json.Unmarshal(val, &res)
-	return res, err
+func receive(v amqp.Delivery, open bool, dst interface{}) (bool, error) {
+	if !open {
+		return false, errors.New("the connection to the queue was closed")
+	}
+	return true, backend.DecodeJSON(v.Body, dst)
 }
 
 // Push implements backend.Queue
@@ -62,21 +64,13 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 // Pop implements backend.Queue
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
 	select {
-	case v := <-q.msgs:
-		val, err := decodeBytes(v.Body)
-		if err != nil {
-			return true, err
-		}
-		return true, backend.CopyResult(val, dst)
+	case v, open := <-q.msgs:
+		return receive(v, open, dst)
 	default:
 		{
 			select {
-			case v := <-q.msgs:
-				val, err := decodeBytes(v.Body)
-				if err != nil {
-					return true, err
-				}
-				return true, backend.CopyResult(val, dst)
+			case v, open := <-q.msgs:
+				return receive(v, open, dst)
 			case <-ctx.Done():
 				return false, nil
 			}
-- 
2.43.0

