#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

RUN = ["internal/runbook/runner.go", "internal/runbook/scheduler/scheduler.go", "internal/dag/dependency.go"]
SEAM = "none in /repo: goroutines, channels, timers, map order, processes, files and sockets are put behind the simulator by rewriting the sources at build time"
RT = "The runner tests drive two fixed graphs with tasks that finish at once (and one fixed failing runbook) under whatever interleaving the Go scheduler happens to pick; "

p("C01", "A task starts only after all of its prerequisites succeeded",
  "In every execution of a runbook, a task starts only after every task named in its 'after' list has run to successful completion. A task that depends, directly or through other tasks, on a task that failed or never ran is never started.",
  ["schedules", "inputs", "fault_sequences"], "every runbook with an acyclic graph, every interleaving of the runner, every task duration, every set of failing tasks",
  RT + "no test varies durations, interleavings or which task fails.",
  RUN + ["internal/dag/tsort.go"], [("dependency bookkeeping", "DependencyGraph.Next"), ("release of ready tasks", "Scheduler.Next/buildReady"), ("completion routing", "runner.run")],
  ["start and end of each task's child process / SQL request / demo step"], hook=SEAM)
p("C02", "Every task of a runbook runs exactly once",
  "When a runbook whose dependency graph is valid runs without any failure, each of its tasks is executed exactly once. In no run, failing or not, is a task executed more than once.",
  ["schedules", "inputs", "fault_sequences"], "every valid runbook, interleaving, task duration and failure",
  RT + "a lost or duplicated completion message needs a particular interleaving.",
  RUN, [("pending list", "DependencyGraph.pending"), ("per-target queues", "Scheduler.pending")], ["child processes started", "SQL requests received by the server"], hook=SEAM)
p("C03", "A target never exceeds its concurrency limit",
  "At no instant are more of a target's tasks executing than its configured concurrency allows (one, if it configures none), whatever the other targets are doing and in whatever order tasks finish.",
  ["schedules", "inputs", "configurations"], "every runbook, every concurrency setting, every interleaving and duration",
  RT + "all their targets have limit 1 and instantaneous tasks, so overlap cannot be seen.",
  RUN + ["internal/runbook/sh/sh.go", "internal/runbook/pg/pg.go"], [("in-flight accounting", "Scheduler.targetLen/targetCap"), ("one worker per target", "startTargetGoroutine")], ["overlap of child processes and SQL requests per target"], hook=SEAM)
p("C04", "Executing a runbook always terminates and leaves nothing behind",
  "As long as each started task's own work ends, executing a runbook returns: empty runbooks, failing tasks, targets that cannot be started and any concurrency setting included. When it has returned, no worker is still running or blocked, no child process is still alive, no file or pipe it opened is still open (the debug log apart) and no task starts any more.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "every runbook and interleaving, every set of failing tasks and unstartable targets",
  "One test checks for leaked goroutines in one failing runbook with limit-1 targets; deadlocks need a failure while another task is queued, an empty runbook, or a failing start.",
  ["internal/runbook/runner.go"], [("channel hand-over and closing protocol", "runner.run, startScheduler, startTargets")], ["return of the run command", "tasks alive in the simulator after return"], hook=SEAM)
p("C05", "The outcome of a run is reported truthfully",
  "Running a runbook reports success only if every task was executed and succeeded. If a task fails, a target cannot be started or the dependency graph is invalid (a cycle, or a prerequisite that does not exist), it reports an error, and that error is one that actually occurred in that run.",
  ["schedules", "inputs", "fault_sequences"], "every runbook, interleaving and combination of failures",
  "Tests check one failing task; failures that race with other completions, with each other or with shutdown are not reached, and no test runs a cyclic runbook.",
  ["internal/runbook/runner.go", "internal/runbook/runbook.go"], [("first error kept", "runner.run"), ("graph validation", "scheduler.New")], ["error returned by the run command"], hook=SEAM)
p("C06", "A failure stops the run",
  "Once a task has failed, the failed target starts no further task, and no task is started whose prerequisites were not all complete at the time of the failure. Any other target starts afterwards at most as many tasks as it could already have been handed: its concurrency limit, counting the tasks it was executing.",
  ["schedules", "inputs", "fault_sequences"], "every runbook and interleaving, every point at which a task fails",
  "One fixed failing runbook is run; which tasks are in flight when the failure is noticed depends on timing no test controls.",
  ["internal/runbook/runner.go"], [("closing of the completion channel", "runner.closeDone"), ("worker exit on error", "startTargetGoroutine")], ["task starts after the first failure, in simulated time"], hook=SEAM)
p("C07", "Each database target uses one session that brackets its work",
  "During a runbook, each database target opens its session before any task of the runbook starts, sends the SQL of its own tasks and of no other target over that session, one at a time, and closes it after its last task and before the run returns. This holds whether the run succeeds, fails, or is given up because another target could not be started.",
  ["schedules", "inputs", "fault_sequences"], "every mix of targets, interleavings, failing tasks, failing starts and lost connections",
  "The only test with database targets needs a live server and has one target with one task.",
  ["internal/runbook/runner.go", "internal/runbook/pg/pg.go"], [("Start/Stop calls", "startTargets, startTargetGoroutine"), ("connection ownership", "pg.Target.Start/Stop")], ["sessions and requests at the simulated server"], hook=SEAM)
p("C08", "Nothing executes when a runbook cannot be executed",
  "If a runbook cannot be read or is not valid, if its dependency graph is invalid (cycle, self-dependency or missing prerequisite) or if any of its targets cannot be started, none of its tasks is executed, not even after the run has returned, and the run reports an error.",
  ["schedules", "inputs", "fault_sequences"], "every invalid runbook and graph, every read error, every subset of unstartable targets, every order of starting targets",
  "The one test with an unstartable target has a single target and looks only at the error.",
  ["internal/runbook/runner.go", "internal/dag/directed.go", "internal/dag/tsort.go"], [("graph validation before release", "scheduler.New"), ("start of all targets before routing", "startTargets")], ["task executions in runs that report such an error"], hook=SEAM)
p("C09", "An idle target with a ready task starts it without waiting",
  "Until a failure occurs, whenever everything that can proceed without some executing task finishing has proceeded, no target is idle while one of its unstarted tasks has all of its prerequisites complete. In particular a slow task on one target never delays a ready task of an idle target.",
  ["schedules", "inputs", "configurations"], "every runbook, concurrency setting, interleaving and duration",
  "Test tasks take no time, so a ready task that is overlooked until some unrelated task ends is indistinguishable from one that is started at once.",
  RUN, [("release of every ready task", "DependencyGraph.Next"), ("router", "startTargets")], ["quiescent points of the simulation"], hook=SEAM)
p("C10", "A task's message is announced once, before the task starts",
  "When informational logging is on, a task's message is logged exactly once for each time the task is executed, before the task's own work begins. The message of a task that is not executed is not logged.",
  ["schedules", "inputs", "fault_sequences"], "every runbook with messages, every interleaving and failure",
  "No test runs a runbook with messages.",
  ["internal/runbook/runner.go"], [("announce before handling", "startTargetGoroutine")], ["log writer, relative to task starts"], hook=SEAM)
p("C11", "Shell tasks start their command exactly as configured",
  "A shell task's command is started with exactly the configured argument list, in the runbook's directory, with empty standard input, and with the process environment as filtered by the target's and then the task's rules ('set' entries always apply; otherwise a non-empty allow list admits only the names in it; otherwise names in the deny list are removed). No other task, target or earlier execution influences it.",
  ["schedules", "inputs", "histories"], "every combination of environment rules on target and task, every sequence and interleaving of tasks and targets",
  "Filter rules are tested on single calls; isolation between tasks sharing a target's environment needs sequences and interleavings of tasks.",
  ["internal/runbook/sh/exec.go", "internal/runbook/sh/env.go", "internal/runbook/sh/sh.go"], [("environment filter", "Env.Apply"), ("command construction", "Exec.exec")], ["process start at the simulated operating system"], hook=SEAM)
p("C12", "A shell task succeeds exactly when its command did",
  "A shell task succeeds if and only if its command could be started, exited with status zero and all of its output was delivered; otherwise the task and the run fail. Everything the command writes to standard output and standard error before it ends is delivered, in order, to the standard output and standard error of pgutil before the task counts as finished.",
  ["fault_sequences", "schedules", "inputs"], "every outcome of the child (missing program, failed fork, exit status, signal, slow or partial output) and every failure of pgutil's own output",
  "Tests run 'true', 'false' and 'echo'; failed forks, signals and output that cannot be written are not produced.",
  ["internal/runbook/sh/exec.go", "internal/runbook/sh/sh.go"], [("wiring of stdio and exit status", "Exec.exec")], ["simulated process exit, bytes at stdout/stderr, task outcome"], hook=SEAM)
p("C13", "Demo targets behave as if their steps ran one at a time",
  "Executing a runbook's demo steps (echo, rev, rot13) has the effect of running each target's steps one at a time in some order allowed by the dependencies: every echo prints the target's text as left by the steps before it, as one whole line, and no step's effect is lost.",
  ["schedules", "inputs"], "every runbook of demo steps, every interleaving of the targets, every order of unrelated steps",
  "Tests run two fixed sequences.",
  ["internal/runbook/demo/tasks.go", "internal/runbook/demo/demo.go", "internal/runbook/runner.go"], [("one worker per target", "startTargetGoroutine"), ("limit 1", "demo.Target.ConcurrencyLimit")], ["lines written to stdout"], hook=SEAM)
p("C14", "The scheduler releases each task once, in time, within capacity",
  "For every graph, capacity setting and order in which running tasks complete, the scheduler releases each task exactly once, only after its prerequisites are complete, never beyond a target's capacity, and never withholds a task whose prerequisites are complete while its target has capacity to spare. It reports that there is nothing left to schedule exactly when every task has been released.",
  ["histories", "inputs", "schedules"], "every acyclic graph, every capacity, every completion order, every hash order",
  "One completion order of one 13-task graph is tested.",
  ["internal/runbook/scheduler/scheduler.go", "internal/dag/dependency.go", "internal/dag/tsort.go"], [("ready computation", "DependencyGraph.Next"), ("capacity", "Scheduler.buildReady")], ["return values of New and Next"], hook=SEAM)
p("C15", "Connecting retries with backoff and keeps one connection",
  "Connecting with N retries makes at most N+1 attempts (one if N is not positive), stops at the first that succeeds and leaves exactly that connection open, or none if all fail. It reports an error exactly when every attempt failed, and the wait before each retry is positive and never shorter than the wait before the previous one. Earlier or concurrent connections of the same process make no difference.",
  ["fault_sequences", "configurations"], "every retry count, every sequence of refused, reset, timed-out, rejected and accepted attempts",
  "Tests need a server that is up (or a host name that never resolves); sequences of failures and recoveries are not produced and no test looks at waits or at what stays open.",
  ["internal/pg/pg.go"], [("retry loop", "pg.New")], ["dial attempts, simulated clock and sockets at the simulated network"], hook=SEAM)
p("C16", "Required TLS is never downgraded",
  "With sslmode require or verify-full, and when a password is supplied without an sslmode, pgutil sends no startup message, credential or SQL over an unencrypted connection on any attempt, whatever the server answers. With verify-full (or a password and no sslmode) it sends none to a server whose certificate does not verify for the configured host; with disable it never requests TLS.",
  ["fault_sequences", "configurations"], "every sslmode, source of the password, server answer to the TLS request, certificate and retry",
  "No test runs against a server that refuses or breaks TLS.",
  ["internal/pg/pg.go"], [("TLS settings", "applySSLMode"), ("default with password", "pg.New")], ["bytes the client sends on the simulated network"], hook=SEAM)
p("C17", "SQL is submitted once and its outcome is reported",
  "The SQL of a database task is sent to its server unchanged and at most once, and the task succeeds if and only if the server reported completion of the whole request. A server error, a lost connection or a garbled answer fails the task, and nothing is sent again.",
  ["fault_sequences", "schedules", "inputs"], "every point of the exchange at which the server fails or the connection breaks, every fragmentation and delay of the answer",
  "The tests need a live server and only see clean successes and one syntax error.",
  ["internal/runbook/pg/exec.go", "internal/pg/pg.go"], [("execution", "Conn.Exec")], ["requests and answers at the simulated server"], hook=SEAM)
p("C18", "Inspection is all or nothing",
  "If the server reports an error, the connection breaks at any point before the last answer of an inspection is complete, or a definition in an answer is not understood, inspection reports an error and writes no description. It never reports success with part of the catalog missing.",
  ["fault_sequences", "inputs"], "every query of an inspection, every row and byte position at which an error, a cut or a reset arrives",
  "Inspection has no tests without a live server, and none with a failing one.",
  ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/index.go", "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/functions.go", "internal/pg/schemas.go", "internal/pg/sequence.go", "internal/pg/triggers.go", "internal/pg/table_storage_parameters.go", "internal/pg/parameters.go", "internal/commands/inspect.go"], [("error checks of each list", "List*")], ["result of the inspect command, bytes written"], hook=SEAM)
p("C19", "Inspection describes the catalog faithfully",
  "Inspecting a database whose constraints, indexes, triggers and storage parameters use the supported syntax succeeds unless connecting or a query fails. Its output then parses back to a description that has every visible non-system table, column, check, foreign key, index, trigger, function, schema, storage parameter and sequence of the server's catalog with the attributes the server reported (a table's columns in their physical order unless sorting is requested; text up to Unicode normalization, which HCL prescribes), and nothing else. How the server's answers are split, delayed or interleaved with notices makes no difference.",
  ["inputs", "fault_sequences", "histories"], "every catalog (within the supported constraint syntax), server version with or without the sequence catalog, fragmentation and delay",
  "The one test of inspection needs a live server and compares a single fixed database.",
  ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/index.go", "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/functions.go", "internal/pg/schemas.go", "internal/pg/sequence.go", "internal/pg/triggers.go", "internal/pg/table_storage_parameters.go", "internal/ddl/ddl.go"], [("catalog queries and row mapping", "List*"), ("constraint parsing", "ddl.Parse*"), ("HCL output", "Database.Write")], ["output of the inspect command"], hook=SEAM)
p("C20", "Sorted inspection does not depend on the server's order",
  "With sorting of columns, indexes and check constraints requested, columns are listed by name within their table, indexes by schema, table and name, and a table's checks by expression. Names and expressions compare bytewise. The order in which the server stores or returns columns, indexes and checks has no influence on how they are listed.",
  ["inputs", "histories"], "every catalog and every order in which the server returns its rows",
  "The only test of sorting needs a live server, and its one database comes in one order.",
  ["internal/pg/inspect.go"], [("sort steps", "inspectTable, inspectTables")], ["output of the inspect command for permuted row orders"], hook=SEAM)
p("C21", "Ping and inspect release their connection and report what they saw",
  "Ping and inspect close every connection they opened before they return, whatever happened. Ping succeeds if and only if the server answered the version query and the answer could be printed, and then prints exactly the version reported; otherwise it reports an error and prints no version.",
  ["fault_sequences", "configurations"], "every point at which connecting, querying or answering can fail",
  "The one test of ping needs a live healthy server.",
  ["internal/commands/ping.go", "internal/commands/inspect.go", "internal/pg/version.go", "internal/pg/pg.go"], [("deferred close", "PingCmd.Run, InspectCmd.Run")], ["sockets at the simulated network, stdout, result"], hook=SEAM)
p("C22", "Output that cannot be written is reported",
  "If version, ping, inspect, runbook list, runbook dot, runbook eval or a demo echo step cannot open, write (completely) or close its output, whether standard output or the file named with --output, the command reports an error. When one of the report commands succeeds, its destination holds exactly the output it would have produced without faults.",
  ["fault_sequences", "configurations"], "every command and destination, every write or close at which the disk is full, the write is short or an I/O error occurs",
  "Tests write to in-memory buffers that never fail.",
  ["internal/commands/runbook_list.go", "internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/version.go", "internal/commands/ping.go", "internal/commands/inspect.go", "internal/runbook/runbook.go", "internal/ddl/ddl.go", "internal/runbook/demo/tasks.go"], [("write error propagation", "Dot, Eval, Run methods")], ["command result and file contents on the simulated disk"], hook=SEAM)
p("C23", "A command that fails early leaves an existing output file alone",
  "If runbook dot, runbook eval or inspect fails because of its input (an unreadable or invalid runbook, a failed connection or query), a file named with --output keeps its previous content, and is not created if it did not exist. Such a failure is reported as an error; no runbook makes these commands crash.",
  ["fault_sequences", "inputs"], "every kind of input failure, at every point before output is complete",
  "No test names an output file.",
  ["internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/inspect.go"], [("opening of the output file", "Run methods")], ["simulated disk before and after the command"], hook=SEAM)
p("C24", "Reports are the same every time",
  "For the same runbook file, runbook list, runbook dot and runbook eval produce byte-for-byte the same output on every invocation; list names every task once, in ascending order, with its target, and dot contains every task and every dependency exactly once.",
  ["schedules", "inputs"], "every runbook and every iteration order of the hash tables involved",
  "Each test runs a command once on one runbook and, for dot and eval, only checks that there is output.",
  ["internal/commands/runbook_list.go", "internal/runbook/runbook.go"], [("sorting before printing", "RunBookListCmd.Run, Dot")], ["stdout of repeated invocations under permuted hash orders"], hook=SEAM)
p("C25", "The debug log is complete",
  "When a debug log is given, every message logged at any level by any goroutine reaches it exactly once and as one whole line, whatever the verbosity of the default log and even if the default log cannot be written; each goroutine's messages appear in the order it logged them. The default log receives exactly the messages its verbosity admits.",
  ["schedules", "fault_sequences", "configurations"], "every verbosity, every number of concurrent goroutines and interleaving, every failing write to the default log",
  "One goroutine logs one message at one verbosity to buffers that never fail.",
  ["internal/logger/logger.go"], [("tee of two cores", "logger.New")], ["bytes arriving at both sinks"], hook=SEAM)
p("C26", "A task set target returns one result per task and closes its results",
  "Every task submitted to a running task set target produces exactly one result, carrying that task's identifier and its own outcome, as long as the caller keeps reading results. After the caller closes the queue, all outstanding results are still delivered and then the result channel is closed, also when nothing is outstanding or nothing was ever submitted.",
  ["schedules", "inputs", "fault_sequences"], "every sequence of batches, every interleaving of caller, dispatcher and tasks, every moment of closing the queue",
  "Tests submit one task at a time, read each result before continuing, and never look at the results after closing the queue.",
  ["internal/taskset/base/base.go", "internal/taskset/demo/demo.go", "internal/taskset/sh/sh.go", "internal/taskset/pg/pg.go"], [("dispatcher and shutdown", "RunTasks")], ["results received by simulated callers"], hook=SEAM)
p("C27", "A task set target never exceeds its maximum concurrency",
  "A task set target never has more tasks executing at the same time than its maximum concurrency, however many tasks are submitted at once or in a row.",
  ["schedules", "inputs", "configurations"], "every batch shape, limit, duration and interleaving",
  "No test submits more tasks than the limit.",
  ["internal/taskset/base/base.go"], [("dispatcher", "RunTasks")], ["overlap of executing tasks in simulated time"], hook=SEAM)
p("C28", "Concurrent task set steps on one target are atomic",
  "When several demo steps (echo, rev, rot13) of a task set execute concurrently on one target, the lines printed and the final text are those of executing them one at a time in some order consistent with submission and completion.",
  ["schedules", "inputs"], "every multiset of concurrent steps and every interleaving down to single statements",
  "Tests run two steps that commute and look only at the final text.",
  ["internal/taskset/demo/rev.go", "internal/taskset/demo/rot13.go", "internal/taskset/demo/echo.go"], [("target mutex", "Target.Mutex")], ["linearizability of the recorded history"], hook=SEAM)

p("C29", "A database session answers each request on its own",
  "On an open connection of the package pg, describing a function or trigger by name returns one that exists, as the server reports it, and reports 'not found' exactly if the server has none; each listing (schemas, tables, columns, checks, foreign keys, functions, indexes, parameters, sequences, storage parameters, triggers), the server version and an inspection return what the server has. A request that the server rejects, or whose answer breaks off, returns an error: never 'not found', and never part of an answer. It does not change what later requests on that connection return as long as the connection lives; once the connection is lost, later requests fail and none blocks. Sessions used at the same time do not affect each other, and closing one releases its connection.",
  ["histories", "fault_sequences", "schedules", "inputs"], "every sequence of requests on every number of concurrent sessions, every database, every server or network fault at every query and row",
  "The integration tests need a live server, issue each request once on a healthy connection and skip otherwise; none sees a failing request, let alone the one after it.",
  ["internal/pg/functions.go", "internal/pg/triggers.go", "internal/pg/pg.go", "internal/pg/errors.go", "internal/pg/index.go", "internal/pg/check.go", "internal/pg/foreign_key.go"], [("not-found mapping", "DescribeFunction, DescribeTrigger"), ("row draining and error checks", "List* (rows.Next, rows.Err, rows.Close)"), ("one connection per session", "pg.New, Conn.Close")], ["what each request returns", "the requests the simulated server saw and how it answered them"], hook=SEAM)

p("C30", "A password reaches nobody but the server it is for",
  "A password that is configured for a database (in a runbook target, in the options of a connection, in PGPASSWORD or in the password file) never appears in anything pgutil writes (standard output, standard error, log messages of any verbosity, the debug log, an output file) nor in an error it returns, and not among the arguments or, unless pgutil's own environment already held it, in the environment of a command it starts; this holds whether connecting succeeds, fails or is retried. (The command 'runbook eval' prints the runbook it is given, as it says, and is not meant.) Over the network it is sent only to the server (and for the database) it is configured for, only as the answer to that server's password request, and in clear text only if that request asks for clear text.",
  ["fault_sequences", "histories", "configurations", "schedules"], "every way of giving a password, every verbosity, every server and network fault at every step of connecting and querying, every mix of targets and connections used together",
  "The tests connect at most to one live server with fixed settings; none looks for the password in what is written, and none has two servers with different passwords.",
  ["internal/pg/pg.go", "internal/runbook/pg/pg.go", "internal/logger/logger.go", "internal/runbook/sh/sh.go"], [("password precedence", "pg.New"), ("target configuration", "pg.Target.Start"), ("logging", "logger.New, zapadapter")], ["everything pgutil wrote or returned", "arguments and environment of every command", "every message each simulated server received"], hook=SEAM)

p("C31", "A command's output appears while it runs",
  "What the command of a shell task writes to standard output or standard error is delivered to pgutil's own without waiting for the command, or for any other task, to end: whenever everything that can proceed without time passing has proceeded, all that each running command has written so far has been delivered, in order (unless delivering takes time or fails).",
  ["schedules", "histories", "configurations"], "every mix of commands, outputs, pauses, pipe sizes and slow readers, every interleaving",
  "The tests look at a command's output only after it has ended; holding all of it back until then passes.",
  ["internal/runbook/sh/exec.go", "internal/runbook/sh/sh.go"], [("output streams", "Exec.exec")], ["bytes each process wrote and bytes delivered, at every quiescent point of the simulation"], hook=SEAM)

# --- pure properties: recorded, not claimed -------------------------------
p("N01", "Runbook files are validated strictly",
  "A runbook is accepted only if every target class, task class, task target and configuration field is known and every task and target setting passes its own check; otherwise parsing reports an error and returns no runbook.",
  ["inputs"], "every runbook file", "Eight invalid files are tested; the space of files is unbounded.",
  ["internal/runbook/parser/parser.go"], [("strict decoding", "Parser.Parse")])
p("N02", "Dependency cycles are found and named correctly",
  "A dependency cycle is reported if and only if the graph has one, the reported cycle is a cycle of that graph, and otherwise the sort lists every node once after all nodes it points to.",
  ["inputs"], "every finite graph", "A handful of graphs are tested.",
  ["internal/dag/tsort.go", "internal/dag/directed.go"], [("depth-first sort", "TSort")])
p("N03", "Descriptions survive writing and parsing",
  "Writing a database description and parsing the result yields the same description, for every combination of strings, numbers and optional parts.",
  ["inputs"], "every description", "One fixed file is tested.",
  ["internal/ddl/ddl.go"], [("HCL encoding", "Database.Write, ParseBytes")])
p("N04", "Constraint definitions are parsed exactly or rejected",
  "A check, foreign key, index or trigger definition as printed by PostgreSQL is parsed into exactly its parts or rejected with an error; it is never silently misread.",
  ["inputs"], "every definition text", "A few dozen definitions are tested.",
  ["internal/ddl/check_parser.go", "internal/ddl/foreign_key_parser.go", "internal/ddl/index_parser.go", "internal/ddl/trigger_parser.go"], [("generated state machines", "Parse*")])
p("N05", "Generated SQL quotes every identifier",
  "SQL generated for tables, indexes and triggers quotes every identifier so that it denotes exactly the described object.",
  ["inputs"], "every name", "One schema with plain names is tested.",
  ["internal/ddl/util.go", "internal/ddl/table.go", "internal/ddl/index.go", "internal/ddl/trigger.go", "internal/pg/util.go"], [("quoting", "quoteName, Identifier")])
p("N06", "Command lines are parsed as documented",
  "Each documented command, alias, flag and default yields exactly the corresponding command with the corresponding settings, and anything else is rejected.",
  ["inputs"], "every argument list", "Eleven argument lists are tested.",
  ["internal/cli/cli.go", "internal/cli/runbook.go", "internal/cli/ping.go", "internal/cli/inspect.go"], [("kingpin registration", "RegisterCommands")])
p("N07", "Task set files keep their dependencies",
  "Parsing a task set yields tasks whose dependencies and provisions are those written in the file, and rejects unknown targets and types.",
  ["inputs"], "every task set file", "One file is parsed and only the absence of an error is checked.",
  ["internal/taskset/parser/parser.go", "internal/taskset/base/base.go"], [("decoding", "Parser.Parse")])
p("N08", "Storage parameters are converted exactly",
  "Each known table storage parameter is converted to its typed value or reported as malformed, and unknown parameters do not disturb the others.",
  ["inputs"], "every key and value", "No test without a live server.",
  ["internal/ddl/table_storage_parameters.go"], [("conversion", "TableStorageParameters.Set")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
