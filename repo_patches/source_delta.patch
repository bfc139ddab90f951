From 22c1a3b66141aba60249cf7d9a93a9215919cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 01/15] fix: restrict MemDB polls to tasks of the polled topic

---
 internal/engine/memdb/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..95c6ffa 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,12 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound iterator does not stop at the end of the topic. Do not
+	// consume tasks of other topics, nor the task until the scheduled time.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From f7ee875a9506e4cf71f686a73eb2efd787f1e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 02/15] fix: include times before the Unix epoch in MemDB polls
 and background jobs

---
 internal/engine/memdb/indexer.go | 5 +++++
 internal/engine/memdb/queue.go   | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..3f5243b 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -3,12 +3,17 @@ package memdb
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"time"
 
 	"github.com/hyperonym/ratus"
 )
 
+// minTime is the lower bound of all times in time field indexes, including
+// those before the Unix epoch.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // StateFieldIndex encodes task state fields for index building.
 type StateFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 95c6ffa..74aab25 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 61e3da7c4a724572ab0df9a4cfb3a5ae78d58f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 03/15] fix: refuse commits and promises that cannot be parsed

---
 internal/middleware/commit.go  |  6 +++++-
 internal/middleware/promise.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From 1d4893a2c8b204db4870d18a4c097f513aaf2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 04/15] fix: refuse task lists with null elements

---
 internal/middleware/task.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..d29f353 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -57,6 +57,10 @@ func Tasks() gin.HandlerFunc {
 		// Validate and normalize all tasks in the list.
 		p := c.Param(ParamTopic)
 		for _, t := range ts.Data {
+			if t == nil {
+				fail(c, fmt.Errorf("%w: task must not be null", ratus.ErrBadRequest))
+				return
+			}
 			if err := normalizeTask(t, "", p); err != nil {
 				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
 				return
-- 
2.43.0


From 2f90997d96aabe15a24790c2ce9d6efe8d61b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 05/15] fix: do not replace the last snapshot unless the new
 one is written completely

---
 internal/engine/memdb/memdb.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..54ec991 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -236,7 +236,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -245,14 +245,17 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 
-	// Rename or delete the temporary file before returning.
-	var ok bool
+	// Rename the temporary file before returning, or delete it if any step of
+	// writing the snapshot has failed.
 	defer func() {
-		f.Close()
-		if !ok {
+		if e := f.Close(); err == nil {
+			err = e
+		}
+		if err == nil {
+			err = os.Rename(p, path)
+		}
+		if err != nil {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
@@ -271,10 +274,8 @@ func save(db *memdb.MemDB, path string) error {
 	}
 	txn.Commit()
 
-	// Mark the operation as successful.
-	ok = true
-
-	return nil
+	// Make sure that the data is on disk before replacing the last snapshot.
+	return f.Sync()
 }
 
 // load recovers data from a snapshot file.
-- 
2.43.0


From 5736b7c62c284ef4a0a1be5d13b53ccd19f626dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 06/15] fix: restore payloads and times from MemDB snapshots
 exactly as stored

---
 internal/engine/memdb/memdb.go | 40 +++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 54ec991..6387458 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -4,6 +4,7 @@ package memdb
 import (
 	"context"
 	"encoding/gob"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -268,7 +269,11 @@ func save(db *memdb.MemDB, path string) (err error) {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		v, err := freeze(r.(*ratus.Task))
+		if err != nil {
+			return err
+		}
+		if err := enc.Encode(v); err != nil {
 			return err
 		}
 	}
@@ -278,6 +283,36 @@ func save(db *memdb.MemDB, path string) (err error) {
 	return f.Sync()
 }
 
+// freeze returns a copy of the task in the form it is stored in snapshots.
+// Gob does not preserve empty containers and zero times, hence the payload is
+// stored as JSON and zero times are given an explicit location.
+func freeze(v *ratus.Task) (*ratus.Task, error) {
+	u := clone(v)
+	if v.Payload != nil {
+		b, err := json.Marshal(v.Payload)
+		if err != nil {
+			return nil, err
+		}
+		u.Payload = b
+	}
+	for _, t := range []**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline} {
+		if *t != nil && (*t).IsZero() {
+			z := (*t).In(time.FixedZone("", 0))
+			*t = &z
+		}
+	}
+	return u, nil
+}
+
+// thaw converts a task read from a snapshot back to its original form.
+func thaw(t *ratus.Task) error {
+	if b, ok := t.Payload.([]byte); ok {
+		t.Payload = nil
+		return json.Unmarshal(b, &t.Payload)
+	}
+	return nil
+}
+
 // load recovers data from a snapshot file.
 func load(db *memdb.MemDB, path string) error {
 
@@ -303,6 +338,9 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		if err := thaw(&t); err != nil {
+			return err
+		}
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
-- 
2.43.0


From f26319eb5de66aeb10f926fef431093f85bd4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 07/15] fix: finish requests being processed before shutting
 down

---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..9e1274d 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// The server stops listening as soon as the shutdown begins, wait for the
+	// requests being processed.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From 49f7fde8d5951ad75fabceacabb38a1d6e9ac561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 08/15] fix: report failures of closing the storage engine on
 shutdown

---
 cmd/ratus/main.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 9e1274d..aef67b7 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -100,11 +97,15 @@ func run() error {
 	}
 
 	// Initialize the storage engine instance and defer the close method for
-	// graceful shutdown.
+	// graceful shutdown, which is not graceful if closing fails.
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func() {
+		if e := g.Close(context.Background()); err == nil {
+			err = e
+		}
+	}()
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From ce3912f94ea882642c1eef00c256274b55b2ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 09/15] fix: stop both the server and background jobs on
 signals during startup

---
 cmd/ratus/main.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index aef67b7..59377fa 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -117,19 +117,24 @@ func run() (err error) {
 		Metrics:    controller.NewMetricsController(g),
 	}, &docs.Swagger{})
 
+	// Listen for termination signals before starting anything that has to be
+	// stopped by them.
+	sig, stop := signal.NotifyContext(ctx, os.Interrupt, syscall.SIGTERM)
+	defer stop()
+
 	// Start API server and background jobs.
 	e, ctx := errgroup.WithContext(ctx)
 	e.Go(func() error {
-		return serve(ctx, r.Handler(), &a.ServerConfig)
+		return serve(ctx, sig.Done(), r.Handler(), &a.ServerConfig)
 	})
 	e.Go(func() error {
-		return chore(ctx, g, &a.ChoreConfig)
+		return chore(ctx, sig.Done(), g, &a.ChoreConfig)
 	})
 
 	return e.Wait()
 }
 
-func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
+func serve(ctx context.Context, ch <-chan struct{}, h http.Handler, c *config.ServerConfig) error {
 
 	// A port number of zero will not start the API server.
 	// This allows the instance to be responsible for running background jobs only.
@@ -144,10 +149,6 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		Handler: h,
 	}
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
@@ -176,7 +177,7 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	return nil
 }
 
-func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
+func chore(ctx context.Context, ch <-chan struct{}, g engine.Engine, c *config.ChoreConfig) error {
 
 	// An interval of zero will not start the background jobs.
 	// This allows the instance to be responsible for handling requests only.
@@ -192,10 +193,6 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 	}
 	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Start ticker for background jobs. The ticker will adjust the time
 	// interval or drop ticks to make up for slow receivers.
 	var n bool
-- 
2.43.0


From 7c119011377c8a4d558cf831a13673d6b04d6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 10/15] fix: report database errors instead of claiming that a
 task does not exist

When a conditional update matched nothing, the MongoDB engine looks the task
up to tell a conflict from a missing task. Any failure of that lookup was
taken for a missing task, so that a transient error of the database made
claims and commits of existing tasks fail with 404.
---
 internal/engine/mongodb/mongodb.go | 11 ++++++++---
 internal/engine/mongodb/promise.go |  6 +++++-
 internal/engine/mongodb/queue.go   | 13 +++++++++----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..b6cf3d8 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,14 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
-	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
+	if _, err := g.peek(ctx, filter, nil, hint); err != nil {
+		if err == mongo.ErrNoDocuments {
+			return false, nil
+		}
+		return false, err
+	}
+	return true, nil
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..a2297ee 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,7 +100,11 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				return nil, e
+			}
+			if ok {
 				err = ratus.ErrConflict
 			} else {
 				err = ratus.ErrNotFound
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..e5bdd0c 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,15 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					return nil, e
+				}
+				if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0


From 3d0a23b2d5ccae8aa8d200ee11353bf67a511aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 11/15] fix: store zero timestamps of tasks in MongoDB

The "omitempty" option of the BSON encoder drops non-nil pointers to zero
times too. A task scheduled at 0001-01-01T00:00:00Z was therefore stored
without a scheduled time and could never be polled.
---
 ratus.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ratus.go b/ratus.go
index 66b82d6..f0841f0 100644
--- a/ratus.go
+++ b/ratus.go
@@ -113,22 +113,25 @@ type Task struct {
 	// Identifier of the consumer instance who consumed the task.
 	Consumer string `json:"consumer,omitempty" bson:"consumer,omitempty"`
 
+	// Timestamps are not subject to "omitempty" in BSON because it would also
+	// drop non-nil zero times, making the task invisible to range queries.
+
 	// The time the task was created.
 	// Timestamps are generated by the instance running Ratus, remember to
 	// perform clock synchronization before running multiple instances.
-	Produced *time.Time `json:"produced,omitempty" bson:"produced,omitempty"`
+	Produced *time.Time `json:"produced,omitempty" bson:"produced"`
 	// The time the task is scheduled to be executed. Tasks will not be
 	// executed until the scheduled time arrives. After the scheduled time,
 	// excessive tasks will be executed in the order of the scheduled time.
-	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled,omitempty"`
+	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled"`
 	// The time the task was claimed by a consumer.
 	// Not to confuse this with the time of commit, which is not recorded.
-	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed,omitempty"`
+	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed"`
 	// The deadline for the completion of execution promised by the consumer.
 	// Consumer code needs to commit the task before this deadline, otherwise
 	// the task is determined to have timed out and will be reset to the
 	// "pending" state, allowing other consumers to retry.
-	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty"`
+	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline"`
 
 	// A minimal descriptor of the task to be executed.
 	// It is not recommended to rely on Ratus as the main storage of tasks.
-- 
2.43.0


From e80914cdfbc5c7d7151188c82bcdabd5acdd1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 12/15] fix: accept empty batches of tasks in the MongoDB
 engine

The driver refuses bulk writes without any operation, which made requests to
insert or upsert an empty list of tasks fail with 500, while the other
engines accept them.
---
 internal/engine/mongodb/task.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..fded8ea 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,10 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +55,9 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 3eb7126e7df088e07db0068515ee8183c2f954d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 13/15] fix: do not acknowledge batches that were stored only
 in part

When inserting a batch into MongoDB, any duplicate key made the engine ignore
all other errors of the bulk write, including those of tasks that could not
be stored and failed write concerns.
---
 internal/engine/mongodb/mongodb.go | 16 ++++++++++++++++
 internal/engine/mongodb/task.go    |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index b6cf3d8..9f478d1 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -3,6 +3,7 @@ package mongodb
 
 import (
 	"context"
+	"errors"
 	"reflect"
 	"sync/atomic"
 	"time"
@@ -275,6 +276,21 @@ func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, err
 	return true, nil
 }
 
+// isOnlyDuplicateKeyErrors returns whether a bulk write has failed for no other
+// reason than duplicate keys.
+func isOnlyDuplicateKeyErrors(err error) bool {
+	var e mongo.BulkWriteException
+	if !errors.As(err, &e) || e.WriteConcernError != nil || len(e.WriteErrors) == 0 {
+		return false
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w) {
+			return false
+		}
+	}
+	return true
+}
+
 // queryOpsPoll returns a document containing query operators to peek into the
 // topic to find the next available task based on the scheduled time.
 func queryOpsPoll(topic string, t time.Time) bson.D {
diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index fded8ea..4d5428a 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -43,7 +43,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !isOnlyDuplicateKeyErrors(err) {
 		return nil, err
 	}
 
-- 
2.43.0


From 652b6229a52350634047b87860c9003f1c626d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 14/15] fix: count replacements by identical tasks as updates
 in MongoDB

The number of modified documents does not include those that already equal
their replacement, so that upserting an unchanged task was reported as if
nothing had been stored.
---
 internal/engine/mongodb/task.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 4d5428a..19a997e 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -88,7 +88,7 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
@@ -192,7 +192,7 @@ func (g *Engine) upsertTaskReplace(ctx context.Context, t *ratus.Task) (*ratus.U
 
 	return &ratus.Updated{
 		Created: r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
-- 
2.43.0


From 598453bae331bd3292b7468a297b25d4b8e45a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 15/15] fix: count tasks inserted before falling back as
 created in MongoDB

---
 internal/engine/mongodb/task.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 19a997e..f3bca97 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -58,10 +58,26 @@ func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	if len(ts) == 0 {
 		return &ratus.Updated{}, nil
 	}
+
+	// The preferred branch may have inserted some of the tasks before it failed.
+	// Those tasks were created by this call even though the fallback branch will
+	// find and replace them.
+	var c int64
 	return branch(func() (*ratus.Updated, error) {
-		return g.upsertTasksReplace(ctx, ts)
+		v, err := g.upsertTasksReplace(ctx, ts)
+		if err != nil && v != nil {
+			c = v.Created
+		}
+		return v, err
 	}, func() (*ratus.Updated, error) {
-		return g.upsertTasksDeleteAndInsert(ctx, ts)
+		v, err := g.upsertTasksDeleteAndInsert(ctx, ts)
+		if err != nil {
+			return nil, err
+		}
+		c = min(c, v.Updated)
+		v.Created += c
+		v.Updated -= c
+		return v, nil
 	}, g.fallbackUpsertTasks)
 }
 
@@ -82,14 +98,15 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 	}
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil {
+	if r == nil {
 		return nil, err
 	}
 
+	// The counts are also returned for batches that failed in part.
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
 		Updated: r.MatchedCount,
-	}, nil
+	}, err
 }
 
 // upsertTasksDeleteAndInsert is the fallback implementation of UpsertTasks.
-- 
2.43.0

