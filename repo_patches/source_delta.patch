From b21d82f51efd02764c4d97f81536d2571cbe8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 01/19] fix: report an invalid dependency graph instead of
 running nothing successfully

The error of scheduler.New was dropped in the scheduler goroutine, so a
runbook with a cycle or a missing prerequisite ran none of its tasks and
reported success.
---
 internal/runbook/runner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..8f88f87 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,8 +63,11 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
-	r.startScheduler()
-	err := r.startTargets()
+	err := r.startScheduler()
+	if err != nil {
+		return err
+	}
+	err = r.startTargets()
 	if err != nil {
 		return err
 	}
@@ -90,12 +93,15 @@ func (r *runner) run() error {
 	return err
 }
 
-func (r *runner) startScheduler() {
+func (r *runner) startScheduler() error {
+	s, ready, err := scheduler.New(r.targets, r.tasks)
+	if err != nil {
+		return err
+	}
 	go func(readyChan chan<- *readyMsg, doneChan <-chan TaskID) {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		s, ready, err := scheduler.New(r.targets, r.tasks)
 		for {
 			if err != nil {
 				break
@@ -121,6 +127,7 @@ func (r *runner) startScheduler() {
 		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
+	return nil
 }
 
 func (r *runner) startTargets() (err error) {
-- 
2.43.0


From b8a49bef5ddfb8e838eb94687082cf6b4b8c7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 02/19] fix: do not wait for tasks of a runbook that has none

The scheduler waited for a first task to end before it noticed that there
was nothing to schedule, so executing an empty runbook never returned.
---
 internal/runbook/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 8f88f87..c7953c9 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -102,7 +102,7 @@ func (r *runner) startScheduler() error {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		for {
+		for len(r.tasks) > 0 {
 			if err != nil {
 				break
 			}
-- 
2.43.0


From d442491750ee4c6c58705c39e01408cdaa9e63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 03/19] fix: never block the router on a busy or failed target

The scheduler hands out as many tasks of a target as its concurrency limit
allows, but each target reads one at a time and none after a failure. The
router then blocked on that target: other targets did not get their tasks
and, after a failure, the run never returned.
---
 internal/runbook/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index c7953c9..ec1acac 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -141,7 +141,7 @@ func (r *runner) startTargets() (err error) {
 		}
 
 		wg.Add(1)
-		ch := make(chan *readyMsg)
+		ch := make(chan *readyMsg, target.ConcurrencyLimit())
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From bc80aef0eac1f6ec78dd80613a8069da3b63a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 04/19] fix: execute no task when a target cannot be started

run() returned the error at once, but the router went on handing tasks to
the targets that had been started (or blocked for ever on one that had
not), and their sessions stayed open.
---
 internal/runbook/runner.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index ec1acac..1ca852a 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -69,6 +69,9 @@ func (r *runner) run() error {
 	}
 	err = r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended { // wait until the started targets have stopped
+		}
 		return err
 	}
 
@@ -149,9 +152,13 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	discard := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
+			if discard {
+				continue
+			}
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
 			ch := channels[x.target]
 			ch <- x
-- 
2.43.0


From 656a67d2148b2ff44e19cba54f67a24200959d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 05/19] fix: release every task whose dependencies are complete

DependencyGraph.Next skipped the task following each one it removed from
the middle of the pending list, so that task was withheld until another
task completed.
---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From 657da4a3141cfbc73dbf354d1863a85d396c2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 06/19] fix: stop connecting after the first success and back
 off for real

New() went on connecting after a successful attempt, leaking all but the
last connection, computed the delay with XOR instead of a power, and
returned neither a connection nor an error for negative retries.
---
 internal/pg/pg.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..9dcf872 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,15 +60,16 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		}
+		if retries < o.ConnectRetries {
+			time.Sleep(delay)
+			delay = time.Duration(2<<retries) * 100 * time.Millisecond
+		} else {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 66b116650229a8661bc9825764b1d69807537b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 07/19] fix: close a task set's results once everything has
 ended

---
 internal/taskset/base/base.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..a1377d7 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -53,14 +53,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			}
 		}
 	shutdown:
-		for result := range relay {
-			results <- result
-			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
+		for ; running > 0; running-- {
+			results <- <-relay
 		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From e73db5ae8cb8f2f6a3c54628f232c3c97cf532ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 08/19] fix: start no more tasks of a task set than its maximum
 concurrency

---
 internal/taskset/base/base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index a1377d7..bbaab15 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -40,6 +40,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			case tasks, ok := <-queue:
 				if ok {
 					for id, task := range tasks {
+						if running > 0 && running >= maxConcurrency {
+							results <- <-relay
+							running--
+						}
 						fmt.Println(id)
 						fn(id, task, relay)
 						running++
-- 
2.43.0


From 5d104105b21750bcfd389b9997a49724865b86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 09/19] fix: draw the same valid graph of a runbook every time

Nodes and edges followed the random order of maps, identifiers that need
quoting in the DOT language were not all quoted, a missing prerequisite
replaced the graph by an error text, a dependency named twice was drawn
twice, and a failed write was ignored.
---
 internal/runbook/runbook.go | 52 ++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..0a9183f 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -2,8 +2,11 @@ package runbook
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"path/filepath"
+	"sort"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -56,7 +59,7 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		return err
 	}
 
-	g := dot.NewEscape()
+	g := dot.NewGraph()
 	g.SetDir(true)
 	g.SetName("runbook")
 	g.AddAttr("runbook", "newrank", "true")
@@ -64,24 +67,55 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		g.AddAttr("runbook", "splines", splines)
 	}
 
+	targetIDs := make([]string, 0, len(runbook.Targets))
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		targetIDs = append(targetIDs, targetID)
+	}
+	sort.Strings(targetIDs)
+
+	graphIDs := make(map[string]string, len(targetIDs))
+	for i, targetID := range targetIDs {
+		graphID := fmt.Sprintf("cluster_%d", i)
+		graphIDs[targetID] = graphID
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", dotQuote(targetID))
+	}
+
+	taskIDs := make([]string, 0, len(runbook.Tasks))
+	for taskID := range runbook.Tasks {
+		taskIDs = append(taskIDs, taskID)
 	}
+	sort.Strings(taskIDs)
 
-	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+	for _, dstID := range taskIDs {
+		task := runbook.Tasks[dstID]
+		graphID := graphIDs[task.Target]
+		g.AddNode(graphID, dotQuote(dstID), nil)
+		seen := make(map[string]bool, len(task.After))
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			if seen[srcID] {
+				continue
+			}
+			seen[srcID] = true
+			g.AddEdge(dotQuote(srcID), dotQuote(dstID), true, nil)
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	graph, err := g.WriteAst()
+	if err != nil {
+		return err
+	}
+	_, err = w.Write([]byte(graph.String()))
+	return err
 }
 
+// dotQuote converts arbitrary text to an ID that GraphViz displays as that text
+func dotQuote(s string) string {
+	return `"` + dotEscaper.Replace(s) + `"`
+}
+
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `&`, `&amp;`)
+
 // Eval converts a runbook to JSON and pretty prints it
 func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From d842aafc5c0bb12c12e3dc563d67dddc5dbb1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 10/19] fix: write output files only when the report is
 complete, and completely

A command that failed on its input had already truncated or created the
file named with --output, and errors of closing it were lost.
---
 internal/commands/base.go         | 18 ++++++++++++++++++
 internal/commands/inspect.go      | 15 ++++++---------
 internal/commands/runbook_dot.go  | 14 ++++++--------
 internal/commands/runbook_eval.go | 25 ++++++++++++++++---------
 4 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/internal/commands/base.go b/internal/commands/base.go
index a32a803..c90ca2b 100644
--- a/internal/commands/base.go
+++ b/internal/commands/base.go
@@ -13,3 +13,21 @@ type Base struct {
 	Debug     *os.File
 	Verbosity int
 }
+
+// writeOutput sends a complete report to a file, or to stdout if filename is "" or "-"
+func writeOutput(base *Base, filename string, report []byte) error {
+	if filename == "" || filename == "-" {
+		_, err := base.Stdout.Write(report)
+		return err
+	}
+
+	w, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
+	if err != nil {
+		return err
+	}
+	if _, err = w.Write(report); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
+}
diff --git a/internal/commands/inspect.go b/internal/commands/inspect.go
index ed9e033..ee7fa3f 100644
--- a/internal/commands/inspect.go
+++ b/internal/commands/inspect.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"bytes"
 
 	"github.com/sjansen/pgutil/internal/pg"
 )
@@ -45,13 +45,10 @@ func (c *InspectCmd) Run(base *Base) error {
 		return err
 	}
 
-	w := base.Stdout
-	if c.Output != "" && c.Output != "-" {
-		w, err = os.OpenFile(c.Output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+	var report bytes.Buffer
+	err = db.Write(&report)
+	if err != nil {
+		return err
 	}
-
-	return db.Write(w)
+	return writeOutput(base, c.Output, report.Bytes())
 }
diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..77038b6 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"bytes"
 	"path/filepath"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -27,12 +27,10 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 		output = src[:len(src)-len(ext)] + ".dot"
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+	var report bytes.Buffer
+	err = runbook.Dot(&base.IO, c.File, &report, c.Splines)
+	if err != nil {
+		return err
 	}
-	return runbook.Dot(&base.IO, c.File, w, c.Splines)
+	return writeOutput(base, output, report.Bytes())
 }
diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..d6ed320 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"os"
 
 	isatty "github.com/mattn/go-isatty"
@@ -22,22 +23,28 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 		output = c.Output
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
-	}
-
 	color := false
 	switch c.Color {
 	case "auto":
+		w := base.Stdout
+		if output != "-" {
+			f, err := os.OpenFile(output, os.O_WRONLY, 0666)
+			if err == nil {
+				defer f.Close()
+				w = f
+			}
+		}
 		if x, ok := w.(interface{ Fd() uintptr }); ok {
 			color = isatty.IsTerminal(x.Fd())
 		}
 	case "true":
 		color = true
 	}
-	return runbook.Eval(&base.IO, c.File, w, color)
+
+	var report bytes.Buffer
+	err = runbook.Eval(&base.IO, c.File, &report, color)
+	if err != nil {
+		return err
+	}
+	return writeOutput(base, output, report.Bytes())
 }
-- 
2.43.0


From 9ecfbb17aa930176ba2061410935662ab009235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 11/19] fix: report errors of writing to standard output

version, version --long, runbook list and ping succeeded although their
output could not be written; version --long bypassed the given writer.
---
 internal/commands/ping.go           |  2 +-
 internal/commands/runbook_list.go   |  8 +++++---
 internal/commands/version.go        | 10 ++++++----
 internal/commands/version_legacy.go |  4 ++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/commands/ping.go b/internal/commands/ping.go
index 85397cc..bf5dd69 100644
--- a/internal/commands/ping.go
+++ b/internal/commands/ping.go
@@ -33,7 +33,7 @@ func (c *PingCmd) Run(base *Base) error {
 
 	version, err := conn.ServerVersion()
 	if err == nil {
-		fmt.Fprintln(base.Stdout, version)
+		_, err = fmt.Fprintln(base.Stdout, version)
 	}
 	return err
 }
diff --git a/internal/commands/runbook_list.go b/internal/commands/runbook_list.go
index c8fbbe3..9ce4afb 100644
--- a/internal/commands/runbook_list.go
+++ b/internal/commands/runbook_list.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"sort"
 
@@ -30,10 +31,11 @@ func (c *RunBookListCmd) Run(base *Base) error {
 	}
 	sort.Strings(sorted)
 
-	fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	var report bytes.Buffer
+	fmt.Fprintln(&report, "Tasks & Targets:")
 	for _, task := range sorted {
 		target := tasks[runbook.TaskID(task)]
-		fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		fmt.Fprintf(&report, "  %-*s  %s\n", longest, task, target)
 	}
-	return nil
+	return writeOutput(base, "-", report.Bytes())
 }
diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..181d045 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -3,6 +3,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"runtime/debug"
 )
@@ -18,12 +19,13 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
+	var report bytes.Buffer
+	fmt.Fprintln(&report, c.App, c.Build)
 	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+		fmt.Fprintln(&report, "")
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			fmt.Fprintf(&report, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
-	return nil
+	return writeOutput(base, "-", report.Bytes())
 }
diff --git a/internal/commands/version_legacy.go b/internal/commands/version_legacy.go
index b6676bd..85dcea2 100644
--- a/internal/commands/version_legacy.go
+++ b/internal/commands/version_legacy.go
@@ -14,6 +14,6 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	return nil
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	return err
 }
-- 
2.43.0


From f543806dc4d177a3a0047d14c182c17e990db69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 12/19] fix: report errors that end a catalog query's rows

---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d521fc590d6ae6093916dee906156e831bd1fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 13/19] fix: list sequences that no column owns

---
 internal/pg/sequence.go | 52 ++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index bbc1fef..608bf21 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -35,21 +35,21 @@ JOIN pg_catalog.pg_namespace n
 JOIN pg_catalog.pg_sequence s
   ON s.seqrelid = c.oid
 LEFT JOIN pg_catalog.pg_depend d
-  ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  ON (d.objid = c.oid
+    AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+    AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+    AND d.deptype IN ('a', 'i'))
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -66,21 +66,21 @@ FROM pg_catalog.pg_class c
 JOIN pg_catalog.pg_namespace n
   ON n.oid = c.relnamespace
 LEFT JOIN pg_catalog.pg_depend d
-  ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  ON (d.objid = c.oid
+    AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+    AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+    AND d.deptype IN ('a', 'i'))
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -143,11 +143,7 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 			Increment: increment,
 			Cache:     cache,
 			Cycle:     cycle,
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:   sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -192,11 +188,7 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 			Comment: String(comment),
 
 			DataType: "bigint",
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:  sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -240,3 +232,15 @@ FROM ` + Identifier(seq.Schema, seq.Name)
 
 	return sequences, nil
 }
+
+// sequenceOwner returns nil for sequences that no column owns
+func sequenceOwner(schema, table, column *string) *ddl.SequenceOwner {
+	if column == nil {
+		return nil
+	}
+	return &ddl.SequenceOwner{
+		Schema: String(schema),
+		Table:  String(table),
+		Column: String(column),
+	}
+}
-- 
2.43.0


From 624dcf2b2b5c6b5cbca060cabf9d465bf43fd73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 14/19] fix: read storage parameters the way PostgreSQL stores
 them

Booleans may be spelled on, off, yes or no, and the cost delay is not the
cost limit.
---
 internal/ddl/table_storage_parameters.go | 30 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..efb491e 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -1,6 +1,9 @@
 package ddl
 
-import "strconv"
+import (
+	"strconv"
+	"strings"
+)
 
 // TableStorageParameters influence how table data is stored and maintained
 type TableStorageParameters struct {
@@ -11,7 +14,8 @@ type TableStorageParameters struct {
 	AutovacuumVacuumScaleFactor       *float64 `hcl:"autovacuum_vacuum_scale_factor,optional"`
 	AutovacuumAnalyzeThreshold        *int     `hcl:"autovacuum_analyze_threshold,optional"`
 	AutovacuumAnalyzeScaleFactor      *float64 `hcl:"autovacuum_analyze_scale_factor,optional"`
-	AutovacuumVacuumCostDelay         *int     `hcl:"autovacuum_vacuum_cost_limit,optional"`
+	AutovacuumVacuumCostDelay         *float64 `hcl:"autovacuum_vacuum_cost_delay,optional"`
+	AutovacuumVacuumCostLimit         *int     `hcl:"autovacuum_vacuum_cost_limit,optional"`
 	AutovacuumFreezeMinAge            *int     `hcl:"autovacuum_freeze_min_age,optional"`
 	AutovacuumFreezeMaxAge            *int     `hcl:"autovacuum_freeze_max_age,optional"`
 	AutovacuumFreezeTableAge          *int     `hcl:"autovacuum_freeze_table_age,optional"`
@@ -34,7 +38,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.ParallelWorkers = &tmp
 		return err
 	case "autovacuum_enabled":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.AutovacuumEnabled = &tmp
 		return err
 	case "autovacuum_vacuum_threshold":
@@ -53,9 +57,13 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		tmp, err := strconv.ParseFloat(value, 64)
 		p.AutovacuumAnalyzeScaleFactor = &tmp
 		return err
+	case "autovacuum_vacuum_cost_delay":
+		tmp, err := strconv.ParseFloat(value, 64)
+		p.AutovacuumVacuumCostDelay = &tmp
+		return err
 	case "autovacuum_vacuum_cost_limit":
 		tmp, err := strconv.Atoi(value)
-		p.AutovacuumVacuumCostDelay = &tmp
+		p.AutovacuumVacuumCostLimit = &tmp
 		return err
 	case "autovacuum_freeze_min_age":
 		tmp, err := strconv.Atoi(value)
@@ -86,9 +94,21 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.LogAutovacuumMinDuration = &tmp
 		return err
 	case "user_catalog_table":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.UserCatalogTable = &tmp
 		return err
 	}
 	return nil
 }
+
+// parseBool accepts the spellings of PostgreSQL, which stores
+// boolean options as they were written
+func parseBool(value string) (bool, error) {
+	switch strings.ToLower(value) {
+	case "on", "yes":
+		return true, nil
+	case "off", "no":
+		return false, nil
+	}
+	return strconv.ParseBool(strings.ToLower(value))
+}
-- 
2.43.0


From 191862f02c1602a3c9fe768a2d976351c49606df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 15/19] fix: keep direction of index keys and literals of index
 predicates

---
 internal/ddl/index.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0d6c2da..5f32d5f 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -40,6 +40,11 @@ func (idx *Index) setName(name string) {
 
 func (idx *Index) setOpClass(opclass string) {
 	key := idx.Keys[len(idx.Keys)-1]
+	if strings.EqualFold(opclass, "DESC") {
+		// the grammar does not tell the direction of a key from its opclass
+		key.Descending = true
+		return
+	}
 	key.OpClass = opclass
 }
 
@@ -52,7 +57,7 @@ func (idx *Index) setUsing(s string) {
 }
 
 func (idx *Index) setWhere(s string) {
-	idx.Where = collapseWhitespace(trim(s))
+	idx.Where = trim(s)
 }
 
 func (idx *Index) ToSQL() (string, error) {
-- 
2.43.0


From 4b01fb789b4c6aae82292ab34bc136d2bf6e9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 16/19] fix: sort checks and indexes

---
 internal/pg/inspect.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..d6b9e37 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -61,10 +61,14 @@ func (c *Conn) inspectTables(o *InspectOptions, db *ddl.Database) (err error) {
 	if o.SortIndexes {
 		indexes := db.Indexes
 		sort.Slice(indexes, func(i, j int) bool {
-			return (indexes[i].Schema < indexes[j].Schema &&
-				indexes[i].Table < indexes[j].Table &&
-				indexes[i].Name < indexes[j].Name)
-
+			a, b := indexes[i], indexes[j]
+			if a.Schema != b.Schema {
+				return a.Schema < b.Schema
+			}
+			if a.Table != b.Table {
+				return a.Table < b.Table
+			}
+			return a.Name < b.Name
 		})
 	}
 
@@ -87,14 +91,18 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
-			return (checks[i].Expression < checks[j].Expression)
+			a, b := checks[i], checks[j]
+			if a.Expression != b.Expression {
+				return a.Expression < b.Expression
+			}
+			return a.Name < b.Name
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 055c6a66330995a8e366708010aad84650340d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 17/19] fix: size the runner's queues by the number of tasks,
 not by the configured concurrency

A runbook with a very large concurrency made the queues' size overflow:
executing it panicked instead of running the tasks.
---
 internal/runbook/runner.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 1ca852a..62cdcc0 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -36,7 +36,7 @@ type runner struct {
 func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner {
 	capacity := 0
 	for _, t := range targets {
-		capacity += t.ConcurrencyLimit()
+		capacity += maxQueued(t, tasks)
 	}
 	capacity *= 2
 
@@ -53,6 +53,15 @@ func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner
 	}
 }
 
+// maxQueued is how many tasks can be handed to a target at the same time
+func maxQueued(target types.Target, tasks types.Tasks) int {
+	n := target.ConcurrencyLimit()
+	if n > len(tasks) {
+		n = len(tasks)
+	}
+	return n
+}
+
 func (r *runner) closeDone() {
 	if r.done != nil {
 		close(r.done)
@@ -144,7 +153,7 @@ func (r *runner) startTargets() (err error) {
 		}
 
 		wg.Add(1)
-		ch := make(chan *readyMsg, target.ConcurrencyLimit())
+		ch := make(chan *readyMsg, maxQueued(target, r.tasks))
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From 6b3d0e0e0d51a078a9e6a2913cf79ba20dfe9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 18/19] fix: report a null target or task as an error

Parsing such a runbook panicked.
---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..a13e0e6 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From 12bf64284c799ff479e1cca6bd295d3de947e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 19/19] fix: a task with an empty name completes when it ends,
 not at the start

---
 internal/dag/dependency.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..7b72056 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -5,6 +5,7 @@ type DependencyGraph struct {
 	dependencies map[string]NodeSet
 	dependents   map[string]NodeSet
 	pending      *pendingTask
+	started      bool
 }
 
 type pendingTask struct {
@@ -59,12 +60,16 @@ func (g *DependencyGraph) HasPending() bool {
 }
 
 // Next registers the completion of a a task and returns a list of tasks
-// that can be started given previously completed tasks
+// that can be started given previously completed tasks. If completed is empty
+// the first time it's called, then no tasks have been completed.
 func (g *DependencyGraph) Next(completed string) []string {
 	var ready []string
-	for id := range g.dependents[completed] {
-		g.dependencies[id].Remove(completed)
+	if g.started || completed != "" {
+		for id := range g.dependents[completed] {
+			g.dependencies[id].Remove(completed)
+		}
 	}
+	g.started = true
 
 	head := g.pending
 	for head != nil && g.dependencies[head.id].Size() < 1 {
-- 
2.43.0

