//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/sjansen/pgutil/internal/cli"
)

// EnvRules are a shell target's or task's environment rules.
type EnvRules struct {
	Allow []string          `json:"Allow,omitempty"`
	Deny  []string          `json:"Deny,omitempty"`
	Set   map[string]string `json:"Set,omitempty"`
}

// RBTarget is a runbook target.
type RBTarget struct {
	ID      string    `json:"id"`
	Class   string    `json:"class"` // sh, demo, pg
	Conc    int       `json:"conc,omitempty"`
	Env     *EnvRules `json:"env,omitempty"`
	Text    string    `json:"text,omitempty"`
	Srv     int       `json:"srv,omitempty"` // pg: index of its server
	SSLMode string    `json:"sslmode,omitempty"`
	Retries int       `json:"retries,omitempty"`
	Pass    string    `json:"pass,omitempty"`
	User    string    `json:"user,omitempty"`
	DB      string    `json:"db,omitempty"` // pg: its database and user, when they are another target's too
}

func (t *RBTarget) db() string {
	if t.DB != "" {
		return t.DB
	}
	return t.ID
}

// RBTask is a runbook task.
type RBTask struct {
	ID      string    `json:"id"`
	Target  string    `json:"target"`
	Kind    string    `json:"kind"` // exec, sql, echo, fail, rev, rot13, sleep
	Long    bool      `json:"long,omitempty"`
	After   []string  `json:"after,omitempty"`
	Msg     bool      `json:"msg,omitempty"`
	Tail    string    `json:"tail,omitempty"`   // follows the task's token in its message
	Shared  bool      `json:"shared,omitempty"` // it has the same message as others
	Prog    string    `json:"prog,omitempty"`
	ArgAt   int       `json:"argAt,omitempty"` // how many of its arguments precede the one that names it
	Args    []string  `json:"args,omitempty"`
	Env     *EnvRules `json:"env,omitempty"`
	Steps   []Step    `json:"steps,omitempty"`
	Code    int       `json:"code,omitempty"`
	Signal  int       `json:"signal,omitempty"`
	Seconds int       `json:"seconds,omitempty"`
	Mark    int       `json:"mark,omitempty"` // where its SQL has its mark: before the text, after it, or within
	SQL     *PGScript `json:"sql,omitempty"`
	Text    string    `json:"text,omitempty"` // extra SQL text
	Like    string    `json:"like,omitempty"` // the task whose command or SQL it has too
}

// RBScenario is one runbook execution.
type RBScenario struct {
	Targets  []*RBTarget `json:"targets"`
	Tasks    []*RBTask   `json:"tasks"`
	Servers  []*PGConf   `json:"servers,omitempty"`
	Env      []string    `json:"env,omitempty"`
	Verbose  int         `json:"verbose,omitempty"` // -v count, negative: -q
	Debug    bool        `json:"debug,omitempty"`
	Writer   bool        `json:"writer,omitempty"` // output goes to an io.Writer, not a file
	Slow     int64       `json:"slow,omitempty"`
	WriteErr int64       `json:"writeErr,omitempty"` // >0: the output writer fails after this many bytes -1
	Faults   []*Fault    `json:"faults,omitempty"`
	PipeCap  int         `json:"pipeCap,omitempty"`
	Chunk    int         `json:"chunk,omitempty"`
	Implicit bool        `json:"implicit,omitempty"` // "runbook FILE" rather than "runbook run FILE"
	Stalls   bool        `json:"stalls,omitempty"`
	Flaw     string      `json:"flaw,omitempty"` // why the runbook cannot be loaded
	FlawAt   int         `json:"flawAt,omitempty"`
}

// flaws are ways in which a runbook cannot be loaded: those of the file, of a target and of a task.
var flaws = map[string]string{
	"read": "file", "open": "file", "syntax": "file", "field": "file", "import": "file", "evaluation": "file",
	"target class": "target", "target field": "target", "no concurrency": "target", "negative concurrency": "target", "null target": "target", "wrong type": "target",
	"task class": "task", "task field": "task", "unknown target": "task", "null task": "task", "empty": "task", "illegal command": "task", "sleep text": "task",
}

var flawNames = func() (l []string) {
	for k := range flaws {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

// flawOf is the target or task concerned.
func (sc *RBScenario) flawOf() (t *RBTarget, task int, ok bool) {
	switch flaws[sc.Flaw] {
	case "file":
		return nil, -1, true
	case "target":
		for i := range sc.Targets {
			u := sc.Targets[(i+sc.FlawAt)%len(sc.Targets)]
			switch {
			case strings.HasSuffix(sc.Flaw, "concurrency") && u.Class == "demo":
			default:
				return u, -1, true
			}
		}
	case "task":
		for i := range sc.Tasks {
			j := (i + sc.FlawAt) % len(sc.Tasks)
			u := sc.Tasks[j]
			switch {
			case sc.Flaw == "empty" && u.Kind != "exec" && u.Kind != "sql":
			case sc.Flaw == "illegal command" && u.Kind != "exec":
			case sc.Flaw == "sleep text" && u.Kind != "sleep":
			default:
				return nil, j, true
			}
		}
	}
	return nil, -1, false
}

// simWriter is an output destination that is not a file.
type simWriter struct {
	s    *Sim
	name string
	slow int64
	left int64 // bytes until it fails, <0: never
	err  bool
	kind int
}

var errWriter = fmt.Errorf("simulated output failure")

// errWriters are such failures: of their own, and of kinds that code may know.
var errWriters = []error{errWriter, fmt.Errorf("%w: %w", errWriter, syscall.EPIPE), fmt.Errorf("%w: %w", errWriter, io.ErrShortWrite), &os.PathError{Op: "write", Path: errWriter.Error(), Err: syscall.ENOSPC}, fmt.Errorf("%w: %w", errWriter, io.ErrClosedPipe), fmt.Errorf("%w: %w", errWriter, os.ErrClosed), fmt.Errorf("%w: %w", errWriter, io.EOF)}

func (w *simWriter) Write(p []byte) (int, error) {
	if w.slow > 0 {
		w.s.K.busy++
		time.Sleep(time.Duration(w.slow))
		w.s.K.busy--
	}
	n := len(p)
	if w.left >= 0 && int64(n) > w.left {
		n = int(w.left)
		w.left = 0
		if n > 0 {
			w.s.K.toStream(w.name, "", p[:n])
		}
		if !w.err {
			w.s.fault("writer error")
			w.s.ev("fault", w.name, "writer error")
		}
		w.err = true
		return n, errWriters[w.kind%len(errWriters)]
	}
	if w.left >= 0 {
		w.left -= int64(n)
	}
	w.s.K.toStream(w.name, "", p[:n])
	return n, nil
}

// ---- generation ----

var rbIDs = []string{"alpha", "bravo", "charlie", "delta", "echo", "fox trot", "golf", "hotel", "india", "juliet", "kilo", "lima", "mike", "november", "", "Alpha", "alpha2", "t0", "*", "it's"}

func genEnvRules(r *Rand, names []string) *EnvRules {
	if r.P(1, 2) {
		return nil
	}
	e := &EnvRules{}
	sub := func() []string {
		var l []string
		for _, n := range names {
			if r.P(1, 3) {
				l = append(l, n)
			}
		}
		if r.P(1, 6) {
			l = append(l, "NO_SUCH")
		}
		return l
	}
	if r.P(1, 3) {
		e.Allow = sub()
	}
	if r.P(1, 3) {
		e.Deny = sub()
	}
	if r.P(1, 2) {
		e.Set = map[string]string{}
		for _, n := range append(sub(), pick(r, "NEW1", "NEW2", "PATH2")) {
			e.Set[n] = pick(r, "", "v1", "a=b", "x y", "$HOME")
		}
	}
	return e
}

func genSteps(r *Rand, prop string, dur func() int64, depth int) []Step {
	var st []Step
	n := r.Intn(4)
	heavy := prop == "C12" || prop == "C31"
	if heavy {
		n = 1 + r.Intn(5)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0, 1:
			d := ""
			for j := 1 + r.Intn(4); j > 0; j-- {
				d += pick(r, "0", "1", "2", "3")
			}
			st = append(st, Step{Op: "out", Data: d, N: pick(r, 1, 1, 3, 50, pick(r, 1, 2000))})
		case 2:
			d := ""
			for j := 1 + r.Intn(4); j > 0; j-- {
				d += pick(r, "4", "5", "6", "7")
			}
			st = append(st, Step{Op: "err", Data: d, N: pick(r, 1, 1, 3, 50)})
		case 3:
			st = append(st, Step{Op: "stdin"})
		case 4:
			if depth == 0 && r.P(1, 3) {
				st = append(st, Step{Op: "fork", Sub: []Step{{Op: "sleep", NS: dur()}, {Op: "out", Data: "1", N: 1}}})
			} else {
				st = append(st, Step{Op: "sleep", NS: dur()})
			}
		default:
			st = append(st, Step{Op: "sleep", NS: dur()})
		}
	}
	if heavy && r.P(1, 40) {
		st = append(st, Step{Op: pick(r, "out", "out", "err"), N: pick(r, 20000, 40000, 300000)})
		st[len(st)-1].Data = map[string]string{"out": "0123", "err": "4567"}[st[len(st)-1].Op]
	}
	if len(st) == 0 || r.P(1, 2) {
		st = append(st, Step{Op: "sleep", NS: dur()})
	}
	return st
}

func genRunbook(r *Rand, prop string) any {
	sc := &RBScenario{PipeCap: pick(r, 65536, 65536, 4096, 64, 7), Chunk: pick(r, 0, 0, 5, 1000)}
	sc.Stalls = prop != "C07" && r.P(1, 2) // read by the driver
	durSet := []int64{0, 1e6, 1e6, 5e6, 1e9, 1e9, 2e9, 7e9}
	if r.P(1, 2) {
		durSet = []int64{1e9, 1e9, 2e9, 3e9}
	}
	dur := func() int64 {
		if r.P(1, 4) {
			return int64(r.Intn(10000)) * 1e6
		}
		if r.P(1, 60) { // hours or days
			return int64(1+r.Intn(72*60)) * 60e9
		}
		return durSet[r.Intn(len(durSet))]
	}
	// which target classes
	classes := []string{"sh", "sh", "demo", "pg"}
	switch prop {
	case "C11", "C12", "C31":
		classes = []string{"sh"}
	case "C13":
		classes = []string{"demo", "demo", "demo", "sh"}
		if r.P(1, 2) {
			classes = []string{"demo"}
		}
	case "C07", "C17", "C30":
		classes = []string{"pg", "pg", "sh"}
	case "C10":
		classes = []string{"sh", "demo"}
	case "C03", "C09":
		classes = []string{"sh", "sh", "sh", "pg", "demo"}
	case "C08":
		classes = []string{"sh", "sh", "pg", "demo"}
	}
	big := prop != "C13" && r.P(1, 40) // many tasks
	if big {
		classes = []string{"sh", "sh", "pg"}
	}
	nt := 1 + r.Intn(4)
	if prop == "C13" && nt > 2 {
		nt = 1
	}
	if r.P(1, 30) && (prop == "C04" || prop == "C05" || prop == "C02") {
		nt = 0
	}
	for i := 0; i < nt; i++ {
		t := &RBTarget{ID: fmt.Sprintf("t%d", i), Class: pick(r, classes...)}
		if t.Class != "pg" && i == 0 && r.P(1, 20) {
			t.ID = ""
		}
		if t.Class != "demo" && r.P(1, 2) {
			t.Conc = 1 + r.Intn(3)
			if r.P(1, 12) {
				t.Conc = pick(r, 1000, 1<<53, 1<<60, 1<<61, 1<<62, 1<<62+1<<61)
			}
		}
		switch t.Class {
		case "sh":
			t.Env = genEnvRules(r, envNames)
		case "demo":
			t.Text = fmt.Sprintf("%s%d%s", pick(r, "Drink", "Be sure", "hELLO "), i, pick(r, "abcNOP", "Xz!", "q w", "end ", "\t", " %d%s%%", "\\n", "NnMmAaZz", "[`{@"))
			if r.P(1, 6) {
				t.Text = " " + t.Text
			}
			if !strings.Contains(strings.Join(classes, " "), "sh") && r.P(1, 3) {
				t.Text += pick(r, "é", "日本", "e\u0301", "ſK", "\u00a0", "ñÑ") // outside ASCII without shell targets only
			}
		case "pg":
			t.Srv = len(sc.Servers)
			if len(sc.Servers) > 0 && r.P(1, 3) {
				t.Srv = r.Intn(len(sc.Servers))
				for _, u := range sc.Targets {
					if u.Class == "pg" && u.Srv == t.Srv && r.P(2, 3) {
						t.DB = u.db() // the same database for the same user
					}
				}
			} else {
				sc.Servers = append(sc.Servers, &PGConf{Host: fmt.Sprintf("db%d", len(sc.Servers)+1), Port: 5432 + r.Intn(2), Version: "PostgreSQL 11.5", LatencyNS: pick(r, 0, int64(1e5), int64(3e7)), Frag: pick(r, 0, 0, 1, 17, 300), GapNS: pick(r, 0, 0, int64(1e6)), Notices: r.P(1, 4)})
			}
			t.SSLMode = "disable"
			if r.P(1, 10) {
				t.SSLMode = pick(r, "", "allow", "prefer")
			}
		}
		sc.Targets = append(sc.Targets, t)
	}
	// tasks
	n := r.Intn(9)
	if prop == "C13" {
		n += 2
	}
	if r.P(1, 8) {
		n += r.Intn(6)
	}
	if n == 0 && r.P(1, 2) {
		n = 2
	}
	if nt == 0 {
		n = 0
	}
	ids := append([]string(nil), rbIDs...)
	if big && nt > 0 {
		n = 16 + r.Intn(30)
		for i := 0; i < 40; i++ {
			ids = append(ids, fmt.Sprintf("n%d", i))
		}
	}
	shuffle(r, ids)
	failP := pick(r, 0, 0, 0, 8, 20, 40)
	switch prop {
	case "C06":
		failP = pick(r, 10, 20, 30)
	case "C02", "C03", "C09", "C10", "C13", "C14":
		failP = pick(r, 0, 0, 0, 0, 10)
	}
	shape := r.Intn(6)
	msgAll := r.P(1, 2) || prop == "C10"
	for i := 0; i < n; i++ {
		t := &RBTask{ID: ids[i]}
		tg := sc.Targets[r.Intn(len(sc.Targets))]
		if r.P(1, 3) {
			tg = sc.Targets[0]
		}
		t.Target = tg.ID
		t.Msg = msgAll || r.P(1, 3)
		if t.Msg && r.P(1, 3) {
			t.Tail = pick(r, msgTails...)
		}
		if r.P(1, 6) || prop == "C10" && r.P(1, 4) {
			t.Msg, t.Tail, t.Shared = false, "", true
		}
		fail := r.P(failP, 100)
		switch tg.Class {
		case "sh":
			t.Kind = "exec"
			t.Long = r.P(1, 3)
			t.Prog = pick(r, "tool", "tool", "/bin/tool", "./tool")
			na := r.Intn(4)
			if r.P(1, 40) {
				na = r.Intn(70)
			}
			for j := na; j > 0; j-- {
				t.Args = append(t.Args, pick(r, "", "-x", "a b", "$PATH", "${HOME}", "é", "'q'", "--flag=1", "*", "?", "~", "~/x", "\\", "a\nb", "`id`", "$(id)", "%d", "--", "\"", "a,b", ";", "-n ", " -x", "--x= 1\t", "a ", "\t", "A=b", "-", "/", "./", "100%", "\x01", strings.Repeat("long ", 200)))
			}
			if len(t.Args) > 0 && r.P(1, 2) {
				t.ArgAt = 1 + r.Intn(len(t.Args))
			}
			t.Env = genEnvRules(r, append(envNames, "NEW1"))
			t.Steps = genSteps(r, prop, dur, 0)
			if fail {
				switch r.Intn(6) {
				case 0:
					t.Signal = pick(r, 9, 15, 11, 6)
				case 1:
					t.Prog = pick(r, "missing", "./missing", "/bin/noexec", "noexec")
				case 2:
					sc.Faults = append(sc.Faults, &Fault{Op: "exec", Path: fmt.Sprintf("task:k%d", i), Err: pick(r, "ENOMEM", "EAGAIN", "E2BIG", "EACCES", "ETXTBSY")})
				default:
					t.Code = 10 + i
					if r.P(1, 3) {
						t.Code = pick(r, 1, 2, 3, 64, 75, 100, 124, 125, 126, 127, 128, 129, 130, 137, 139, 141, 143, 254, 255, 1+r.Intn(255))
					}
				}
			}
		case "demo":
			t.Kind = pick(r, "echo", "echo", "rev", "rot13", "sleep")
			if prop == "C13" {
				t.Kind = pick(r, "echo", "echo", "echo", "rev", "rot13", "rev", "rot13", "sleep")
			}
			if t.Kind == "sleep" {
				t.Seconds = r.Intn(4)
			}
			if fail {
				t.Kind = "fail"
			}
		case "pg":
			t.Kind = "sql"
			t.Long = r.P(1, 3)
			t.SQL = &PGScript{NS: dur(), Rows: pick(r, 0, 0, 1, 5), Tag: pick(r, "INSERT 0 1", "UPDATE 3", "CREATE TABLE", "")}
			t.Text = pick(r, "SELECT 1", "UPDATE t SET x = 'a;b'", "INSERT INTO \"T\" VALUES (1); SELECT 2", "  DO $$ BEGIN END $$ ", "VACUUM\n;",
				"BEGIN;\nUPDATE a SET x = 1;\nUPDATE b SET x = $1;\nCOMMIT;\n", "-- nothing\n", "SELECT ':a', '?', '%d', E'\\n\\'';'\r\n;\r\n", "", " \t\n", ";;", "-- nothing", "--", "# x", "SELECT 1 -- and no more", "/* a /* b */ ; */ select 1",
				"CREATE FUNCTION f() RETURNS int AS $body$ SELECT 1;\nSELECT 2; $body$ LANGUAGE sql;\n", "\\set x 1", "SELECT '"+strings.Repeat("long ", 2000)+"'")
			if !sc.hasShell() {
				t.Text += pick(r, "", " -- é\x7f", "\t-- 日本", "\u00a0", "\ufeff")
			}
			t.Mark = r.Intn(3)
			switch r.Intn(8) {
			case 0:
				t.SQL.Parts = 1 + r.Intn(3)
			case 1:
				t.SQL.Empty = true
			case 2:
				t.SQL.Big = pick(r, 10, 5010, 70010)
			}
			if f := sc.Servers[tg.Srv].Frag; f > 0 && f < 100 {
				t.SQL.Big %= 100
				if len(t.Text) > 1000 {
					t.Text = t.Text[:100]
				}
			}
			t.SQL.Tx = pick(r, "", "", "", "T", "I", "E")
			if (prop == "C17" || prop == "C07" || prop == "C05" || prop == "C04") && r.P(1, 25) {
				t.SQL.Hangup = pick(r, 1, int64(1e6), int64(1e9), int64(4e9))
				t.SQL.HangBy = pick(r, "fatal", "close")
			}
			if fail {
				if r.P(1, 2) {
					t.SQL.Err = fmt.Sprintf("simulated failure k%d", i)
					t.SQL.Code = pick(r, sqlStates...)
					t.SQL.Sev = pick(r, "", "", "FATAL", "FEHLER", "ERREUR")
					if !sc.hasShell() && r.P(1, 8) {
						t.SQL.Sev = "ОШИБКА"
					}
				} else {
					srv := sc.Servers[tg.Srv]
					srv.Faults = append(srv.Faults, PGFault{Where: "query", Match: sqlMark(i), Stage: pick(r, "parse", "rows", "commit", "mid"), Kind: pick(r, "error", "close", "reset", "badmsg"), Code: pick(r, sqlStates...), Msg: fmt.Sprintf("simulated fault k%d", i), At: r.Intn(3)})
				}
			}
		}
		if i >= 16 {
			t.Steps = quiet(t.Steps)
		}
		for j := range t.Steps {
			if sc.PipeCap < 4096 || sc.Chunk > 0 && sc.Chunk < 100 {
				t.Steps[j].N %= 10001
			}
		}
		// prerequisites
		if i > 0 {
			switch shape {
			case 0: // independent
			case 1: // chain
				t.After = []string{ids[i-1]}
			case 2: // fan out, then in
				if i < n-1 {
					t.After = []string{ids[0]}
				} else {
					for j := 1; j < i; j++ {
						t.After = append(t.After, ids[j])
					}
				}
			default:
				k := r.Intn(3)
				for j := 0; j < k; j++ {
					t.After = append(t.After, ids[r.Intn(i)])
				}
			}
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	// sometimes the graph is not executable
	bad := 12
	if prop == "C08" {
		bad = 3
	}
	if len(sc.Tasks) > 0 && r.P(1, bad) && prop != "C11" && prop != "C12" && prop != "C31" && prop != "C09" {
		t := sc.Tasks[r.Intn(len(sc.Tasks))]
		switch r.Intn(3) {
		case 0:
			m := pick(r, "no-such-task", "no-such-task", "", "ALPHA", "alpha ", "t1", "t0")
			for _, u := range sc.Tasks {
				if u.ID == m {
					m = "no-such-task"
				}
			}
			t.After = append(t.After, m)
		case 1:
			t.After = append(t.After, t.ID)
		case 2:
			u := sc.Tasks[r.Intn(len(sc.Tasks))]
			t.After = append(t.After, u.ID)
			if u != t {
				u.After = append(u.After, t.ID)
			}
		}
	}
	// sometimes a database cannot be reached, or only after a while
	startP := 15
	if prop == "C07" || prop == "C08" || prop == "C04" {
		startP = 4
	}
	for _, t := range sc.Targets {
		if t.Class != "pg" || !r.P(1, startP) {
			continue
		}
		srv := sc.Servers[t.Srv]
		k := r.Intn(3)
		t.Retries = r.Intn(3)
		for c := 1; c <= k+1; c++ {
			f := PGFault{Where: pick(r, "dial", "auth", "auth", "init"), Conn: c, Kind: pick(r, "error", "close", "reset"), Code: pick(r, "28P01", "57P03", "53300", pick(r, sqlStates...)), Msg: "simulated refusal"}
			if f.Where == "dial" {
				f.Kind = pick(r, "refuse", "timeout", "refuse", "timeout", "unreachable", "descriptors", "name", "names")
				f.NS = 2e9
			}
			srv.Faults = append(srv.Faults, f)
		}
		if r.P(1, 2) {
			srv.Faults = []PGFault{{Where: pick(r, "dial", "auth"), Kind: "error", Code: pick(r, "28000", "57P03"), Msg: "simulated refusal"}}
		}
	}
	// environment of pgutil
	for _, n := range envNames {
		if r.P(2, 3) {
			sc.Env = append(sc.Env, n+"="+pick(r, "1", "", "a=b", "x y", " v ", "a\nb", "é", "v"))
		}
	}
	sc.Verbose = pick(r, 0, 1, 1, 2, -1)
	if prop == "C10" || prop == "C13" {
		sc.Verbose = pick(r, 1, 1, 2, 0)
	}
	sc.Debug = r.P(1, 5)
	sc.Writer = r.P(1, 2)
	sc.Implicit = r.P(1, 4)
	if r.P(1, 6) {
		sc.Slow = pick(r, int64(1e3), int64(1e6), int64(1e9))
	}
	if prop == "C12" && r.P(1, 4) && sc.Writer {
		sc.WriteErr = 1 + int64(r.Intn(200))
	}
	if prop == "C12" && !sc.Writer && r.P(1, 6) {
		sc.Faults = append(sc.Faults, &Fault{Op: "write", Path: "/dev/stdout", At: int64(r.Intn(100)), Err: pick(r, "ENOSPC", "EIO")})
	}
	if r.P(1, 10) && (prop == "C12" || prop == "C04") {
		sc.Faults = append(sc.Faults, &Fault{Op: "pipe", Path: "pipe", Nth: 1 + r.Intn(4), Err: "EMFILE"})
	}
	if r.P(1, 10) {
		sc.Faults = append(sc.Faults, &Fault{Op: "eintr", Path: "wait", Nth: 1 + r.Intn(3)})
	}
	if r.P(1, 12) {
		sc.Faults = append(sc.Faults, &Fault{Op: "short", Path: "/work/books/book.json", At: int64(1 + r.Intn(pick(r, 30, 600)))})
	}
	// sometimes several tasks have the same command or SQL
	if r.P(1, 8) {
		for k := r.Range(1, 3); k > 0 && len(sc.Tasks) > 0 && len(sc.Tasks) < 48; k-- {
			j := sc.likeOf(r.Intn(len(sc.Tasks)))
			u := sc.Tasks[j]
			if u.Kind != "exec" && u.Kind != "sql" {
				continue
			}
			c := *u
			c.ID, c.Like, c.Msg, c.After = fmt.Sprintf("%s again%d", u.ID, len(sc.Tasks)), u.ID, false, append([]string(nil), u.After...)
			msg := u.Msg
			u.Msg = false
			if c.SQL != nil {
				q := *c.SQL
				c.SQL = &q
			}
			c.Steps = append([]Step(nil), c.Steps...)
			if len(sc.Tasks) >= 16 {
				c.Steps = quiet(c.Steps)
			}
			sc.Tasks = append(sc.Tasks, &c)
			for _, v := range sc.Tasks {
				for _, a := range v.After {
					if a == u.ID {
						v.After = append(v.After, c.ID)
						break
					}
				}
			}
			if !sc.validLikes() {
				sc.Tasks = sc.Tasks[:len(sc.Tasks)-1]
				for _, v := range sc.Tasks {
					if n := len(v.After); n > 0 && v.After[n-1] == c.ID {
						v.After = v.After[:n-1]
					}
				}
				u.Msg = msg
			}
		}
	}
	if prop == "C08" && r.P(1, 4) || prop == "C04" && r.P(1, 20) {
		sc.Flaw, sc.FlawAt = pick(r, flawNames...), r.Intn(40)
	}
	if prop == "C30" {
		sc.genSecrets(r)
	}
	return sc
}

var envNames = []string{"AA", "aa", "AAA", "BB", "CC", "PATH", "HOME", "PGUTIL_X", "PGUTIL"}

// hasShell: bytes outside ASCII stand for the output of shell tasks.
func (sc *RBScenario) hasShell() bool {
	for _, t := range sc.Targets {
		if t.Class == "sh" {
			return true
		}
	}
	return false
}

// likeOf returns the task whose command or SQL a task has: itself or an earlier one.
func (sc *RBScenario) likeOf(i int) int {
	if sc.Tasks[i].Like != "" {
		for j := 0; j < i; j++ {
			if sc.Tasks[j].ID == sc.Tasks[i].Like {
				return j
			}
		}
	}
	return i
}

// validLikes: tasks with the same command cannot be told from each other, so
// everything that can be observed must be the same whichever is which.
func (sc *RBScenario) validLikes() bool {
	has := func(l []string, id string) bool {
		for _, a := range l {
			if a == id {
				return true
			}
		}
		return false
	}
	for i, t := range sc.Tasks {
		if t.Like == "" {
			continue
		}
		j := sc.likeOf(i)
		u := sc.Tasks[j]
		if j == i || u.Like != "" || t.Target != u.Target || t.Kind != u.Kind || t.Kind != "exec" && t.Kind != "sql" || t.Msg || u.Msg || t.Shared != u.Shared || len(t.After) != len(u.After) {
			return false
		}
		for k := range t.After {
			if t.After[k] != u.After[k] {
				return false
			}
		}
		for _, v := range sc.Tasks {
			if has(v.After, t.ID) != has(v.After, u.ID) {
				return false
			}
		}
		for _, f := range sc.Faults {
			if f.Path == fmt.Sprintf("task:k%d", i) || f.Path == fmt.Sprintf("task:k%d", j) {
				return false
			}
		}
		for _, srv := range sc.Servers {
			for _, f := range srv.Faults {
				if f.Match == sqlMark(i) || f.Match == sqlMark(j) {
					return false
				}
			}
		}
	}
	return true
}

func sqlMark(i int) string { return fmt.Sprintf("/*k%d*/", i) }

func (sc *RBScenario) sql(i int) string {
	i = sc.likeOf(i)
	t := sc.Tasks[i]
	switch j := strings.IndexByte(t.Text, ' '); {
	case t.Mark == 1:
		return t.Text + sqlMark(i)
	case t.Mark == 2 && j >= 0:
		return t.Text[:j] + sqlMark(i) + t.Text[j:]
	}
	return sqlMark(i) + t.Text
}

func (sc *RBScenario) valid() bool {
	if sc.FlawAt < 0 || sc.FlawAt > 40 {
		return false
	}
	ts := map[string]*RBTarget{}
	if len(sc.Tasks) > 50 {
		return false
	}
	for _, t := range sc.Targets {
		if t == nil || t.ID == "" && t.Class == "pg" || ts[t.ID] != nil || strings.Contains(t.ID, "/") || t.Conc < 0 {
			return false
		}
		switch t.Class {
		case "sh", "demo":
		case "pg":
			if t.Srv < 0 || t.Srv >= len(sc.Servers) {
				return false
			}
			if u := ts[t.DB]; t.DB != "" && (u == nil || u.Class != "pg" || u.Srv != t.Srv) {
				return false
			}
			switch t.SSLMode {
			case "", "disable", "allow", "prefer":
			default:
				return false
			}
		default:
			return false
		}
		ts[t.ID] = t
	}
	for _, s := range sc.Servers {
		if s == nil || s.Host == "" || s.LatencyNS < 0 || s.GapNS < 0 || s.Frag < 0 || s.TLS != "" || s.Port < 1 {
			return false
		}
		for _, f := range s.Faults {
			if f.Kind == "" || f.Where == "" || f.Kind == "error" && f.Where != "dial" && !strings.HasPrefix(f.Msg, "simulated") {
				return false
			}
		}
	}
	ids := map[string]bool{}
	for i, t := range sc.Tasks {
		if t != nil && i >= 16 && len(quiet(t.Steps)) != len(t.Steps) {
			return false
		}
		if t == nil || ids[t.ID] || ts[t.Target] == nil {
			return false
		}
		ids[t.ID] = true
		switch t.Kind {
		case "exec":
			if ts[t.Target].Class != "sh" || t.Prog == "" {
				return false
			}
		case "sql":
			if ts[t.Target].Class != "pg" || t.SQL == nil {
				return false
			}
		case "echo", "fail", "rev", "rot13", "sleep":
			if ts[t.Target].Class != "demo" {
				return false
			}
		default:
			return false
		}
		if t.Code < 0 || t.Code > 255 || t.Seconds < 0 {
			return false
		}
		if !validSteps(t.Steps) {
			return false
		}
	}
	for _, t := range sc.Targets {
		if t.Class == "demo" && len(t.Text) < 4 {
			return false
		}
	}
	for _, f := range sc.Faults {
		if f == nil || f.Op == "" || f.Path == "" || f.Err == "" && f.Op != "eintr" && f.Op != "short" {
			return false
		}
	}
	return sc.PipeCap > 0 && sc.Chunk >= 0 && sc.Slow >= 0 && sc.validLikes() && sc.secretsValid()
}

func validSteps(st []Step) bool {
	for _, s := range st {
		switch s.Op {
		case "out":
			if strings.Trim(s.Data, "0123") != "" {
				return false
			}
		case "err":
			if strings.Trim(s.Data, "4567") != "" {
				return false
			}
		case "sleep", "stdin", "fork":
		default:
			return false
		}
		if s.NS < 0 || !validSteps(s.Sub) {
			return false
		}
	}
	return true
}

// quiet removes the steps that may print: only the output of the first 16 tasks can be told apart.
func quiet(st []Step) (q []Step) {
	for _, s := range st {
		if s.Op == "sleep" || s.Op == "stdin" {
			q = append(q, s)
		}
	}
	return q
}

// json renders the runbook file.
func (sc *RBScenario) json() string {
	targets := map[string]any{}
	flawT, flawK, _ := sc.flawOf()
	for _, t := range sc.Targets {
		cfg := map[string]any{}
		switch t.Class {
		case "sh":
			if t.Env != nil {
				cfg["Env"] = t.Env
			}
		case "demo":
			cfg["String"] = t.Text
		case "pg":
			srv := sc.Servers[t.Srv]
			cfg["host"] = srv.Host
			cfg["port"] = srv.Port
			cfg["username"] = "u_" + t.db()
			if t.User != "" {
				cfg["username"] = t.User
			}
			cfg["database"] = t.db()
			if t.SSLMode != "" {
				cfg["sslmode"] = t.SSLMode
			}
			if t.Retries != 0 {
				cfg["connect_retries"] = t.Retries
			}
			if t.Pass != "" {
				cfg["password"] = t.Pass
			}
		}
		if t.Conc > 0 && t.Class != "demo" {
			cfg["Concurrency"] = t.Conc
		}
		targets[t.ID] = map[string]any{"class": t.Class, "config": cfg}
		if t == flawT {
			switch sc.Flaw {
			case "target class":
				targets[t.ID] = map[string]any{"class": "nonsense", "config": cfg}
			case "target field":
				cfg["nonsense"] = 1
			case "no concurrency":
				cfg["Concurrency"] = 0
			case "negative concurrency":
				cfg["Concurrency"] = -1
			case "null target":
				targets[t.ID] = nil
			case "wrong type":
				targets[t.ID] = map[string]any{"class": t.Class, "config": "text"}
			}
		}
	}
	tasks := map[string]any{}
	for i, t := range sc.Tasks {
		x := map[string]any{"target": t.Target}
		if t.Kind != "exec" && t.Kind != "sql" {
			x["target"] = t.Target + "/" + t.Kind
		} else if t.Long {
			x["target"] = t.Target + "/exec"
		}
		if len(t.After) > 0 {
			x["after"] = t.After
		}
		if t.Msg {
			x["message"] = msgToken(i) + t.Tail
		} else if t.Shared {
			x["message"] = sharedMsg
		}
		switch t.Kind {
		case "exec":
			cfg := map[string]any{"Args": sc.argv(i)}
			if e := sc.Tasks[sc.likeOf(i)].Env; e != nil {
				cfg["Env"] = e
			}
			x["config"] = cfg
		case "sql":
			x["config"] = map[string]any{"sql": sc.sql(i)}
		case "sleep":
			x["config"] = map[string]any{"seconds": t.Seconds}
		}
		tasks[t.ID] = x
		if i == flawK {
			switch sc.Flaw {
			case "task class":
				x["target"] = t.Target + "/nonsense"
			case "task field":
				x["config"] = map[string]any{"nonsense": 1}
			case "unknown target":
				x["target"] = "nowhere"
			case "null task":
				tasks[t.ID] = nil
			case "empty":
				delete(x, "config")
			case "illegal command":
				x["config"] = map[string]any{"Args": []string{"bin/tool"}}
			case "sleep text":
				x["config"] = map[string]any{"seconds": "a while"}
			}
		}
	}
	book := map[string]any{"targets": targets, "tasks": tasks}
	if sc.Flaw == "field" {
		book["nonsense"] = map[string]any{}
	}
	b, err := json.MarshalIndent(book, "", " ")
	if err != nil {
		panic(err)
	}
	switch sc.Flaw {
	case "syntax":
		return string(b[:len(b)-2])
	case "import":
		return string(b) + " + import 'missing.libsonnet'"
	case "evaluation":
		return string(b) + " + { tasks+: error 'no' }"
	}
	return string(b)
}

func (sc *RBScenario) argv(i int) []string {
	i = sc.likeOf(i)
	t := sc.Tasks[i]
	at := t.ArgAt
	if at < 0 || at > len(t.Args) {
		at = len(t.Args)
	}
	a := append([]string{t.Prog}, t.Args[:at]...)
	return append(append(a, fmt.Sprintf("k%d", i)), t.Args[at:]...)
}

// sqlStates are codes of errors, among them those after which one may be tempted to try again.
var sqlStates = []string{
	"XX001", "P0001", "40001", "40P01", "55P03", "57014", "57P01", "08006", "25006", "0A000", "26000", "23505", "42P01", "53300", "42P07", "42710", "42P06", "42P04",
	"42701", "42723", "42704", "42P16", "25P02", "25001", "22012", "23503", "3F000", "57P03", "58030", "P0002", "00000", "01000", "02000", "0100C", "01003", "01004",
	"01P01", "02001", "03000", "08000", "08003", "08001", "08004", "08007", "08P01", "09000", "0B000", "0F000", "0L000", "0LP01", "0P000", "20000", "21000", "22000",
	"22001", "22003", "22007", "22008", "22021", "22023", "22025", "22P02", "22P03", "22P05", "23000", "23001", "23502", "23514", "23P01", "24000", "25000", "25002",
	"25008", "25P01", "25P03", "27000", "28000", "28P01", "2BP01", "2D000", "2F000", "34000", "38000", "39000", "3B001", "3D000", "40000", "40002", "40003", "42501",
	"42601", "42602", "42622", "42703", "42712", "42725", "42803", "42804", "42809", "42830", "42883", "42939", "42P02", "42P03", "42P05", "42P10", "42P17", "42P18",
	"44000", "53000", "53100", "53200", "53400", "54000", "54001", "55000", "55006", "55P02", "57000", "57P02", "57P04", "58000", "58P01", "58P02", "72000", "F0000",
	"HV000", "P0000", "P0003", "P0004", "XX000", "XX002",
}

// sharedMsg is the message of several tasks.
const sharedMsg = "the-same-announcement"

// ASCII only: other bytes are those by which the output of tasks is recognised
const secondLine = "the second line"

var msgTails = []string{" 100%", " %s and %d%%", " \"quoted\" \\ text", " {\"k\": 1}", "\ttabbed", " ~x~", "  two  spaces ", " %!v(MISSING)", " $HOME", " <b>&amp;</b>", "\n" + secondLine, " of three\n\n3: " + secondLine + "\n", "\n", " \n\n"}

func msgToken(i int) string { return fmt.Sprintf("announce-k%d-task", i) }

// ---- execution ----

type rbTask struct {
	i        int
	t        *RBTask
	tg       *RBTarget
	after    []int
	anc      map[int]bool
	procs    []*Proc
	attempts int // kernel saw the start fail
	starts   []int
	startT   int64
	endSeq   int // >0: its work ended
	ok       bool
	failSeq  int // >0: known to have failed
	reapSeq  int
	queries  []*PGQuery
	msgs     []int // seqs of announcements in the default log
	msgT     int64
	msgsDbg  int
	cannot   bool // its program cannot be executed
	same     *rbTask
}

type rbRun struct {
	s       *Sim
	sc      *RBScenario
	tasks   []*rbTask
	byName  map[string]*rbTask
	byMark  map[string]*rbTask
	byID    map[string]*rbTask
	invalid bool // the graph is not executable
	flawed  bool // nor can the runbook be loaded
	lines   map[string][]int
	out     string
	errOut  string
	servers []*PGServer

	firstFail   int // seq, 0: none
	failTask    *rbTask
	knownSeq    int // the failure is known to everyone since
	knownExec   map[string]int
	knownT      int64
	returned    bool
	retSeq      int
	retErr      error
	maybeFailed bool
	logInfo     bool
	maxConc     map[string]int
	shared      []int // seqs of announcements that are several tasks' message
}

func pickAt(i int, l ...string) string { return l[i%len(l)] }

func newRBRun(s *Sim, sc *RBScenario) *rbRun {
	rr := &rbRun{s: s, sc: sc, byName: map[string]*rbTask{}, byMark: map[string]*rbTask{}, byID: map[string]*rbTask{}, lines: map[string][]int{}, maxConc: map[string]int{}}
	tg := map[string]*RBTarget{}
	for _, t := range sc.Targets {
		tg[t.ID] = t
	}
	for i, t := range sc.Tasks {
		if j := sc.likeOf(i); j != i {
			c, u := *t, sc.Tasks[j]
			c.Prog, c.Args, c.Env, c.Mark, c.SQL, c.Text = u.Prog, u.Args, u.Env, u.Mark, u.SQL, u.Text
			t = &c
		}
		x := &rbTask{i: i, t: t, tg: tg[t.Target], anc: map[int]bool{}}
		rr.tasks = append(rr.tasks, x)
		rr.byName[fmt.Sprintf("k%d", i)] = x
		rr.byMark[sqlMark(i)] = x
		rr.byID[t.ID] = x
		x.same = rr.tasks[sc.likeOf(i)]
		switch t.Prog {
		case "tool", "/bin/tool", "./tool", "":
		default:
			x.cannot = true
		}
	}
	for _, x := range rr.tasks {
		for _, a := range x.t.After {
			p := rr.byID[a]
			if p == nil {
				rr.invalid = true
				continue
			}
			x.after = append(x.after, p.i)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, x := range rr.tasks {
			for _, p := range x.after {
				if !x.anc[p] {
					x.anc[p] = true
					changed = true
				}
				for q := range rr.tasks[p].anc {
					if !x.anc[q] {
						x.anc[q] = true
						changed = true
					}
				}
			}
		}
	}
	for _, x := range rr.tasks {
		if x.anc[x.i] {
			rr.invalid = true
		}
	}
	if _, _, ok := sc.flawOf(); ok {
		rr.invalid, rr.flawed = true, true
	}
	rr.out, rr.errOut = "/dev/stdout", "/dev/stderr"
	if sc.Writer {
		rr.out, rr.errOut = "w:stdout", "w:stderr"
	}
	rr.logInfo = sc.Verbose >= 1
	return rr
}

func limitOf(t *RBTarget) int {
	if t.Class == "demo" || t.Conc < 1 {
		return 1
	}
	return t.Conc
}

// willStart tells whether a database target can be started, and after how many attempts.
func (rr *rbRun) willStart(t *RBTarget) bool {
	if t.Class != "pg" {
		return true
	}
	return true
}

func runRunbook(s *Sim, scAny any) {
	sc := scAny.(*RBScenario)
	rr := newRBRun(s, sc)
	s.data = rr
	k := s.K
	k.exempt = true
	k.mkdirs("/work/books")
	k.file("/work/books/book.json", sc.json(), 0644)
	k.file("/bin/tool", "#!", 0755)
	k.fds[0] = &OFD{node: k.file("/dev/typed", "typed by the user\n", 0644), name: "/dev/stdin", refs: 1}
	k.file("/work/books/tool", "#!", 0755)
	k.file("/bin/noexec", "", 0644)
	k.exempt = false
	k.pipeCap, k.chunk, k.slow = sc.PipeCap, sc.Chunk, sc.Slow
	for _, f := range sc.Faults {
		c := *f
		k.faults = append(k.faults, &c)
	}
	switch sc.Flaw {
	case "read":
		k.faults = append(k.faults, &Fault{Op: "read", Path: "/work/books/book.json", At: int64(sc.FlawAt % len(sc.json())), Err: "EIO"})
	case "open":
		k.faults = append(k.faults, &Fault{Op: "open", Path: "/work/books/book.json", Err: pickAt(sc.FlawAt, "EACCES", "EIO", "EMFILE", "ENOENT")})
	}
	for _, kv := range sc.Env {
		i := strings.Index(kv, "=")
		if i > 0 && kv[:i] != "PATH" {
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
	environ := os.Environ()
	s.Net = &Network{s: s, servers: map[string]*PGServer{}}
	for _, cfg := range sc.Servers {
		srv := &PGServer{s: s, cfg: cfg}
		srv.script = func(db, sql string) *PGScript {
			if x := rr.taskOfSQL(sql); x != nil {
				return x.t.SQL
			}
			return nil
		}
		rr.servers = append(rr.servers, srv)
		s.Net.servers[fmt.Sprintf("%s:%d", cfg.Host, cfg.Port)] = srv
	}
	rr.hideAll()
	defer s.checkSecrets()
	k.onProc = func(p *Proc) {
		for _, a := range p.Argv {
			if x := rr.byName[a]; x != nil && x.t.Kind == "exec" {
				x = rr.oneOf(x, func(y *rbTask) bool { return len(y.procs) == 0 })
				p.Name = fmt.Sprintf("k%d", x.i)
				p.Steps, p.Code, p.Signal = x.t.Steps, x.t.Code, x.t.Signal
				base := byte(0x80 + 8*x.i)
				p.xlat = func(st Step) []byte {
					n := st.N
					if n < 1 {
						n = 1
					}
					b := []byte(strings.Repeat(st.Data, n))
					for j := range b {
						b[j] = base + b[j] - '0'
					}
					return b
				}
				x.procs = append(x.procs, p)
				break
			}
		}
	}
	s.onEv = rr.onEv
	s.onIdle = rr.idle

	args := []string{}
	for i := 0; i < sc.Verbose; i++ {
		args = append(args, "-v")
	}
	for i := 0; i < -sc.Verbose; i++ {
		args = append(args, "-q")
	}
	if sc.Debug {
		args = append(args, "--debug", "/out/debug.log")
	}
	args = append(args, "runbook")
	if !sc.Implicit {
		args = append(args, "run")
	}
	args = append(args, "books/book.json")

	returned := s.runSUT(func() {
		p := cli.RegisterCommands("sim")
		cmd, err := p.Parse(args)
		if err != nil {
			s.Broken = "command line rejected: " + err.Error()
			return
		}
		var stdout, stderr io.Writer = os.Stdout, os.Stderr
		if sc.Writer {
			left := int64(-1)
			if sc.WriteErr > 0 {
				left = sc.WriteErr - 1
			}
			stdout = &simWriter{s: s, name: "w:stdout", slow: sc.Slow, left: left, kind: int(sc.WriteErr)}
			stderr = &simWriter{s: s, name: "w:stderr", slow: sc.Slow, left: -1}
		}
		rr.retErr = cmd(stdout, stderr)
		rr.returned = true
		s.tell(rr.retErr)
		rr.retSeq = len(s.Events)
		s.ev("run.return", "", "%v", rr.retErr)
	})
	if s.Broken != "" {
		return
	}
	if !returned {
		if s.Fatal != "" {
			s.violate("C04", "crash", "%s", s.Fatal)
		} else {
			s.violate("C04", "hang: "+rr.hangClass(), "%s", s.Hang)
		}
		rr.check(environ)
		return
	}
	left := s.settle()
	rr.leftovers(left)
	rr.check(environ)
}

func (rr *rbRun) hangClass() string {
	switch {
	case len(rr.tasks) == 0:
		return "empty runbook"
	case rr.invalid:
		return "invalid graph"
	case rr.firstFail > 0:
		return "after a failure"
	}
	return "run does not return"
}

func (rr *rbRun) taskOfSQL(sql string) *rbTask {
	if i := strings.Index(sql, "/*k"); i >= 0 {
		if j := strings.Index(sql[i:], "*/"); j > 0 {
			return rr.byMark[sql[i:i+j+2]]
		}
	}
	return nil
}

// oneOf picks the first of the tasks with x's command or SQL that fits, or x.
func (rr *rbRun) oneOf(x *rbTask, fits func(*rbTask) bool) *rbTask {
	for _, y := range rr.tasks {
		if y.same == x && fits(y) {
			return y
		}
	}
	return x
}

// onEv keeps the tasks' states.
func (rr *rbRun) onEv(e *Ev) {
	switch e.Kind {
	case "proc.start":
		x := rr.byName[e.Who]
		if x == nil {
			rr.s.violate("C11", "unknown command", "a process was started that no task describes: %s", e.Arg)
			return
		}
		rr.start(x, e)
	case "proc.exit":
		if x := rr.byName[e.Who]; x != nil && x.endSeq == 0 {
			x.endSeq = e.Seq + 1
			x.ok = x.t.Code == 0 && x.t.Signal == 0
			for _, p := range x.procs {
				if p.Code != 0 || p.Signal != 0 {
					x.ok = false
				}
			}
			if !x.ok {
				rr.fail(x, e.Seq+1)
			}
		}
	case "proc.reap":
		if x := rr.byName[e.Who]; x != nil {
			x.reapSeq = e.Seq + 1
		}
	case "fault":
		if strings.HasPrefix(e.Who, "task:") {
			if x := rr.byName[e.Who[5:]]; x != nil {
				x.attempts++
				rr.start(x, e)
				x.endSeq = e.Seq + 1
				x.reapSeq = e.Seq + 1
				rr.fail(x, e.Seq+1)
			}
		}
	case "proc.kill":
		if x := rr.byName[e.Who]; x != nil && rr.firstFail == 0 && !rr.mayHaveFailed(nil) && !rr.pipeFaults() {
			rr.s.violate("C12", "command killed", "pgutil killed the command of task %q although nothing had failed", x.t.ID)
		}
	case "pg.query":
		if x := rr.taskOfSQL(e.Arg); x != nil {
			x = rr.oneOf(x, func(y *rbTask) bool { return len(y.starts) == 0 })
			for _, srv := range rr.servers {
				if n := len(srv.queries); n > 0 && srv.queries[n-1].StartSeq == e.Seq {
					x.queries = append(x.queries, srv.queries[n-1])
				}
			}
			rr.start(x, e)
		}
	case "pg.done":
		x := rr.taskOfSQL(e.Arg)
		if x != nil {
			x = rr.oneOf(x, func(y *rbTask) bool { return len(y.queries) > 0 && y.endSeq == 0 })
		}
		if x != nil && x.endSeq == 0 && len(x.queries) > 0 {
			x.endSeq = e.Seq + 1
			x.reapSeq = e.Seq + 1
			x.ok = x.queries[len(x.queries)-1].Done
			if !x.ok {
				rr.fail(x, e.Seq+1)
			}
		}
	case "net.close":
		rr.closed()
	case "write":
		if e.Who == rr.out {
			ws := rr.s.K.streams[rr.out]
			w := &ws[len(ws)-1]
			if w.Src == "" {
				rr.scanOut(string(w.Data), e)
			}
		} else if e.Who == "/out/debug.log" {
			d := rr.s.K.nodes["/out/debug.log"].data
			_ = d
		}
	}
}

// closed handles the closing of connections by pgutil.
func (rr *rbRun) closed() {
	if rr.firstFail > 0 || rr.invalid || rr.returned || rr.pipeFaults() {
		return
	}
	for _, x := range rr.tasks {
		if x.t.Kind == "fail" || x.cannot || rr.sessionLost(x.tg) {
			return
		}
	}
	for _, t := range rr.sc.Targets {
		if t.Class == "pg" && !rr.established(t) {
			return
		}
	}
	for _, x := range rr.tasks {
		if x.t.Kind != "sql" || x.endSeq > 0 {
			continue
		}
		// which session is whose may not be known yet when targets share a database
		need, open, lost := map[*RBTarget]bool{}, 0, false
		for _, y := range rr.tasks {
			if y.t.Kind == "sql" && y.endSeq == 0 && y.tg.Srv == x.tg.Srv && y.tg.db() == x.tg.db() {
				need[y.tg] = true
			}
		}
		shared := 0
		for _, t := range rr.sc.Targets {
			if t.Class == "pg" && t.Srv == x.tg.Srv && t.db() == x.tg.db() {
				shared++
			}
		}
		for _, c := range rr.servers[x.tg.Srv].conns {
			if c.Ready && c.DB == x.tg.db() {
				if c.l.clientClosed {
					lost = true
				} else {
					open++
				}
			}
		}
		if lost && (shared == 1 || open < len(need)) {
			rr.s.violate("C07", "session closed early", "the session of target %q was closed although its task %q had not been executed and nothing had failed", x.tg.ID, x.t.ID)
		}
	}
}

func (rr *rbRun) scanOut(data string, e *Ev) {
	next := 0
	for _, line := range strings.SplitAfter(data, "\n") {
		at := next
		next += len(line)
		if i := strings.Index(line, secondLine); i >= 0 && strings.Contains(line[:i], "INFO") {
			rr.s.violate("C10", "message changed", "a line of a message was logged on its own: %q", line)
		}
		if i := strings.Index(line, sharedMsg); i >= 0 && strings.Contains(line[:i], "INFO") {
			rr.shared = append(rr.shared, e.Seq+1)
			if rest := line[i+len(sharedMsg):]; strings.HasSuffix(rest, "\n") && rest != "\n" {
				rr.s.violate("C10", "message changed", "a task's message was logged as %q", line[i:])
			}
		}
		if i := strings.Index(line, "announce-k"); i >= 0 && strings.Contains(line[:i], "INFO") {
			if j := strings.Index(line[i:], "-task"); j > 0 {
				if x := rr.byName[line[i+len("announce-"):i+j]]; x != nil {
					x.msgs = append(x.msgs, e.Seq+1)
					rest, want := data[at+i+j+len("-task"):], x.t.Tail+"\n"
					if len(rest) > len(want) {
						rest = rest[:len(want)]
					}
					if !strings.HasPrefix(want, rest) || len(rest) < len(want) && strings.HasSuffix(rest, "\n") && !rr.ioFaults() {
						rr.s.violate("C10", "message changed", "the message of task %q was logged as %q", x.t.ID, line[i:]+rest)
					}
					if x.msgT == 0 {
						x.msgT = e.T
					}
					if x.t.Kind != "exec" && x.t.Kind != "sql" && len(x.starts) == 0 {
						rr.start(x, e)
						if x.t.Kind == "fail" {
							rr.fail(x, e.Seq+1)
						}
					}
				}
			}
		}
	}
}

func (rr *rbRun) fail(x *rbTask, seq int) {
	x.failSeq = seq
	rr.s.probe("failure")
	if rr.firstFail == 0 {
		rr.firstFail = seq
		rr.failTask = x
	}
}

// start handles the start of a task's work.
func (rr *rbRun) start(x *rbTask, e *Ev) {
	s := rr.s
	x.starts = append(x.starts, e.Seq+1)
	if len(x.starts) == 1 {
		x.startT = e.T
	}
	if len(x.starts) > 1 {
		s.violate("C02", "executed twice", "task %q was executed %d times", x.t.ID, len(x.starts))
	}
	for _, pi := range x.after {
		p := rr.tasks[pi]
		if p.failSeq > 0 {
			s.violate("C01", "started after failed prerequisite", "task %q started although its prerequisite %q failed", x.t.ID, p.t.ID)
			continue
		}
		switch p.t.Kind {
		case "exec", "sql":
			switch {
			case len(p.starts) == 0:
				s.violate("C01", "started before prerequisite", "task %q started before its prerequisite %q did", x.t.ID, p.t.ID)
			case p.endSeq == 0:
				s.violate("C01", "started before prerequisite ended", "task %q started while its prerequisite %q was executing", x.t.ID, p.t.ID)
			}
		case "fail":
			s.violate("C01", "started after failed prerequisite", "task %q started although its prerequisite %q can only fail", x.t.ID, p.t.ID)
		default:
			if rr.logInfo && p.t.Msg {
				if len(p.msgs) == 0 {
					s.violate("C01", "started before prerequisite", "task %q started before its prerequisite %q was announced", x.t.ID, p.t.ID)
				} else if p.t.Kind == "sleep" && e.T < p.msgT+sleepNS(p.t) {
					s.violate("C01", "started before prerequisite ended", "task %q started while its prerequisite %q was sleeping", x.t.ID, p.t.ID)
				}
			}
			if p.t.Kind == "echo" {
				need := 1
				for a := range p.anc {
					if q := rr.tasks[a]; q.t.Kind == "echo" && q.tg == p.tg {
						need++
					}
				}
				if got := rr.echoes(p.tg); got < need {
					s.violate("C01", "started before prerequisite ended", "task %q started before its prerequisite %q printed (%d of %d lines)", x.t.ID, p.t.ID, got, need)
				}
			}
		}
	}
	// everything printed by prerequisites has been delivered
	for _, pi := range x.after {
		rr.delivered(rr.tasks[pi], "before its dependent "+x.t.ID+" started")
	}
	if rr.flawed {
		s.violate("C08", "invalid runbook executed", "task %q was executed although the runbook cannot be loaded (%s)", x.t.ID, rr.sc.Flaw)
	} else if rr.invalid {
		s.violate("C08", "invalid graph executed", "task %q was executed although the dependency graph is invalid", x.t.ID)
	}
	// concurrency
	n := 0
	for _, y := range rr.tasks {
		if y.tg == x.tg && rr.executing(y, e.T) {
			n++
		}
	}
	if n > rr.maxConc[x.tg.ID] {
		rr.maxConc[x.tg.ID] = n
	}
	if n > limitOf(x.tg) {
		s.violate("C03", "limit exceeded", "%d tasks of target %q (limit %d) were executing when task %q started", n, x.tg.ID, limitOf(x.tg), x.t.ID)
	}
	if rr.returned {
		s.violate("C04", "task started after return", "task %q started after the run had returned", x.t.ID)
	}
	// after a failure
	for _, y := range rr.tasks {
		if y != x && y.tg == x.tg && y.failSeq > 0 && y.reapSeq > 0 {
			others := false
			for _, z := range rr.tasks {
				if z != x && z != y && z.tg == x.tg && rr.executing(z, e.T) {
					others = true
				}
			}
			if !others {
				s.violate("C06", "failed target continued", "task %q started on target %q after task %q had failed there", x.t.ID, x.tg.ID, y.t.ID)
			}
		}
	}
	if rr.knownSeq > 0 && !rr.invalid {
		for _, pi := range x.after {
			p := rr.tasks[pi]
			if (p.t.Kind == "exec" || p.t.Kind == "sql") && (p.endSeq == 0 || p.endSeq > rr.knownSeq) {
				s.violate("C06", "new task released after failure", "task %q started although its prerequisite %q was not complete when the failure of %q was known", x.t.ID, p.t.ID, rr.failTask.t.ID)
			}
		}
		rr.knownExec[x.tg.ID]++
		if rr.knownExec[x.tg.ID] > limitOf(x.tg) {
			s.violate("C06", "too many tasks after failure", "target %q executed %d tasks after the failure of %q was known (limit %d)", x.tg.ID, rr.knownExec[x.tg.ID], rr.failTask.t.ID, limitOf(x.tg))
		}
	}
}

func sleepNS(t *RBTask) int64 {
	if t.Seconds < 1 {
		return 1e9
	}
	return int64(t.Seconds) * 1e9
}

// executing tells whether a task's work is in progress, as far as can be seen.
func (rr *rbRun) executing(y *rbTask, now int64) bool {
	if len(y.starts) == 0 {
		return false
	}
	switch y.t.Kind {
	case "exec":
		n := 0
		for _, p := range y.procs {
			if p.Pid != 0 && !p.Exited {
				n++
			}
		}
		return n > 0
	case "sql":
		return y.endSeq == 0
	case "sleep":
		return now < y.msgT+sleepNS(y.t)
	}
	return false
}

// echoes counts the lines of a demo target printed so far.
func (rr *rbRun) echoes(t *RBTarget) int {
	return len(rr.demoLines(t))
}

func (rr *rbRun) demoLines(t *RBTarget) []string {
	var sb strings.Builder
	for _, w := range rr.s.K.streams[rr.out] {
		for _, c := range w.Data {
			if c < 0x80 || !rr.sc.hasShell() {
				sb.WriteByte(c)
			}
		}
	}
	var out []string
	vs := demoVariants(t.Text)
	for _, l := range strings.Split(sb.String(), "\n") {
		for _, v := range vs {
			if l == v {
				out = append(out, l)
				break
			}
		}
	}
	return out
}

func rev(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

func rot13(s string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z':
			return 'a' + (c-'a'+13)%26
		case c >= 'A' && c <= 'Z':
			return 'A' + (c-'A'+13)%26
		}
		return c
	}, s)
}

func demoVariants(s string) []string {
	return []string{s, rev(s), rot13(s), rot13(rev(s))}
}

// sutStalled reports whether the scheduler is holding back a goroutine of pgutil.
func sutStalled() bool {
	for _, g := range runtime.SimGoroutines() {
		if !g.Harness && g.Stalled {
			return true
		}
	}
	return false
}

// idle runs when nothing can proceed without time passing.
func (rr *rbRun) idle() {
	s := rr.s
	if rr.returned || s.Hang != "" || s.Fatal != "" {
		return
	}
	if sutStalled() || s.K.busy > 0 {
		return
	}
	rr.visible()
	for _, srv := range rr.servers {
		for _, c := range srv.conns {
			if c.busy() {
				return
			}
		}
	}
	now := s.now()
	if rr.firstFail > 0 {
		for _, p := range rr.failTask.procs {
			if p.Pid != 0 && (!p.Reaped || p.Forks > 0) {
				return // pgutil cannot know yet
			}
		}
		if rr.knownSeq == 0 {
			rr.knownSeq = len(s.Events)
			rr.knownT = now
			rr.knownExec = map[string]int{}
			for _, x := range rr.tasks {
				if rr.executing(x, now) {
					rr.knownExec[x.tg.ID]++
				}
			}
			s.probe("failure known")
		}
		return
	}
	if rr.invalid {
		return
	}
	// every target must have been started
	for _, t := range rr.sc.Targets {
		if t.Class == "pg" && !rr.established(t) {
			return
		}
	}
	complete := map[int]int{} // 1 complete, 2 unknown
	for _, x := range rr.tasks {
		switch x.t.Kind {
		case "exec":
			if len(x.procs) > 0 {
				p := x.procs[0]
				switch {
				case p.Pid == 0 || !p.Reaped:
				case p.Forks == 0:
					complete[x.i] = 1
				default:
					complete[x.i] = 2 // whether the descendants matter depends on how the output is passed on
				}
			}
		case "sql":
			if x.endSeq > 0 && x.ok {
				complete[x.i] = 1
			}
		default:
			switch {
			case !rr.logInfo || !x.t.Msg:
				complete[x.i] = 2
			case len(x.msgs) == 0:
			case x.t.Kind == "sleep" && rr.sc.Stalls:
				complete[x.i] = 2 // nobody knows when it went to sleep
			case x.t.Kind == "sleep":
				if now >= x.msgT+sleepNS(x.t) {
					complete[x.i] = 1
				}
			case x.t.Kind != "fail":
				complete[x.i] = 1
			}
		}
	}
	running := ""
	for _, t := range rr.sc.Targets {
		busy, unknown := false, false
		for _, x := range rr.tasks {
			if x.tg != t {
				continue
			}
			if complete[x.i] == 2 {
				unknown = true
			}
			if len(x.starts) > 0 && complete[x.i] != 1 {
				busy = true
				running += fmt.Sprint(x.i, ",")
			}
		}
		if busy || unknown {
			continue
		}
		for _, x := range rr.tasks {
			if x.tg != t || len(x.starts) > 0 || x.cannot {
				continue
			}
			ready := true
			for _, p := range x.after {
				if complete[p] != 1 {
					ready = false
				}
			}
			if ready && !rr.mayHaveFailed(complete) {
				s.violate("C09", "idle target with ready task", "at %v nothing can proceed without time passing, target %q is idle and task %q is ready but not started", time.Duration(now), t.ID, x.t.ID)
			}
		}
	}
	s.state("rb", running, fmt.Sprint(complete))
	if strings.Count(running, ",") > 1 {
		s.probe("concurrent")
	}
}

// mayHaveFailed reports whether a task may have failed unseen. Without knowing
// which tasks are complete (nil) any task counts as ready.
func (rr *rbRun) mayHaveFailed(complete map[int]int) bool {
	for _, x := range rr.tasks {
		if !x.cannot && x.t.Kind != "fail" && !rr.pipeFaults() {
			continue
		}
		ready := true
		for _, p := range x.after {
			if complete != nil && complete[p] == 0 {
				ready = false
			}
		}
		if ready {
			return true
		}
	}
	for _, srv := range rr.servers {
		for _, c := range srv.conns {
			if c.l.dead && c.Ready {
				return true
			}
		}
	}
	return false
}

func (rr *rbRun) pipeFaults() bool {
	for _, f := range rr.sc.Faults {
		if f.Op == "pipe" || f.Op == "write" {
			return true
		}
	}
	return rr.sc.WriteErr > 0
}

// connsOf returns the connections that are a target's. Where several targets
// have the same database, a connection is the target's whose SQL it saw first;
// those that have seen none go to the targets that lack one.
func (rr *rbRun) connsOf(t *RBTarget) []*PGConn {
	var out []*PGConn
	var twins []*RBTarget
	for _, u := range rr.sc.Targets {
		if u.Class == "pg" && u.Srv == t.Srv && u.db() == t.db() {
			twins = append(twins, u)
		}
	}
	if len(twins) == 1 {
		for _, c := range rr.servers[t.Srv].conns {
			if c.DB == t.db() {
				out = append(out, c)
			}
		}
		return out
	}
	owner := map[*PGConn]*RBTarget{}
	has := map[*RBTarget]bool{}
	for _, q := range rr.servers[t.Srv].queries {
		if x := rr.taskOfSQL(q.SQL); x != nil && owner[q.Conn] == nil && q.Conn.DB == x.tg.db() {
			owner[q.Conn] = x.tg
			has[x.tg] = true
		}
	}
	for _, c := range rr.servers[t.Srv].conns {
		if c.DB != t.db() {
			continue
		}
		u := owner[c]
		if u == nil {
			u = twins[0]
			if c.Ready {
				for _, v := range twins {
					if !has[v] {
						u = v
						has[v] = true
						break
					}
				}
			}
		}
		if u == t {
			out = append(out, c)
		}
	}
	return out
}

// ownerOf returns the target a connection is for.
func (rr *rbRun) ownerOf(c *PGConn) string {
	for _, t := range rr.sc.Targets {
		if t.Class != "pg" || rr.servers[t.Srv] != c.srv || t.db() != c.DB {
			continue
		}
		for _, d := range rr.connsOf(t) {
			if d == c {
				return t.ID
			}
		}
	}
	return c.DB
}

func (rr *rbRun) established(t *RBTarget) bool {
	for _, c := range rr.connsOf(t) {
		if c.Ready {
			return true
		}
	}
	return false
}

// leftovers checks that nothing remains after the run has returned.
func (rr *rbRun) leftovers(left []runtime.SimG) {
	s := rr.s
	for _, g := range left {
		s.violate("C04", "goroutine left: "+leftClass(g), "after the run has returned a goroutine remains: %s, started by %s", g.Wait, g.Start)
	}
	if files := s.K.opened(); len(files) > 0 {
		s.violate("C04", "file left open", "after the run has returned %v are still open", files)
	}
	running, zombies := s.K.alive()
	if len(running) > 0 {
		s.violate("C04", "process left", "after the run has returned processes are still running: %v", running)
	}
	if len(zombies) > 0 {
		s.violate("C04", "process not reaped", "after the run has returned processes have not been waited for: %v", zombies)
	}
}

func leftClass(g runtime.SimG) string {
	f := shortFn(g.Start)
	if i := strings.Index(f, "."); i >= 0 {
		return f[:i]
	}
	return f
}

// inMicro reports whether a byte is part of the unit of a logged duration ("3µs").
func inMicro(b []byte, i int) bool {
	const mu = "\u00b5s"
	if b[i] == mu[1] {
		i--
	}
	return i > 0 && i+3 <= len(b) && string(b[i:i+3]) == mu && b[i-1] >= '0' && b[i-1] <= '9'
}

// project extracts a task's bytes from an output stream.
func project(ws []Wr, base byte, lo, hi byte) []byte {
	var all, out []byte
	for _, w := range ws {
		all = append(all, w.Data...)
	}
	for i, c := range all {
		if c >= base+lo && c <= base+hi && !inMicro(all, i) {
			out = append(out, c)
		}
	}
	return out
}

// delivered checks that everything a shell task wrote has arrived.
func (rr *rbRun) delivered(x *rbTask, when string) {
	if x.t.Kind != "exec" || len(x.procs) != 1 || x.procs[0].Pid == 0 || !x.ok && rr.ioFaults() {
		return
	}
	p := x.procs[0]
	if !p.Exited || hasForkOut(x.t.Steps) || x.i >= 16 {
		return
	}
	base := byte(0x80 + 8*x.i)
	for _, st := range []struct {
		name   string
		stream string
		want   []byte
		lo, hi byte
	}{{"standard output", rr.out, p.Out, 0, 3}, {"standard error", rr.errOut, p.ErrOut, 4, 7}} {
		got := project(rr.s.K.streams[st.stream], base, st.lo, st.hi)
		if string(got) != string(st.want) {
			sig := "output lost"
			if len(got) > len(st.want) {
				sig = "output repeated"
			} else if len(got) == len(st.want) {
				sig = "output reordered"
			}
			rr.s.violate("C12", sig, "of %d bytes task %q wrote to %s, %d had been delivered %s", len(st.want), x.t.ID, st.name, len(got), when)
		}
	}
	if len(p.Out)+len(p.ErrOut) > 0 {
		rr.s.probe("output delivered")
	}
}

// visible checks that what running commands wrote so far has arrived.
func (rr *rbRun) visible() {
	if rr.firstFail > 0 || rr.mayHaveFailed(nil) || rr.ioFaults() {
		return
	}
	for _, x := range rr.tasks {
		if x.t.Kind != "exec" || len(x.procs) != 1 || x.i >= 16 || hasForkOut(x.t.Steps) {
			continue
		}
		p := x.procs[0]
		if p.Pid == 0 || p.Exited || p.Killed || len(p.Out)+len(p.ErrOut) == p.seen {
			continue
		}
		p.seen = len(p.Out) + len(p.ErrOut)
		base := byte(0x80 + 8*x.i)
		for _, st := range []struct {
			name   string
			stream string
			want   []byte
			lo, hi byte
		}{{"standard output", rr.out, p.Out, 0, 3}, {"standard error", rr.errOut, p.ErrOut, 4, 7}} {
			got := project(rr.s.K.streams[st.stream], base, st.lo, st.hi)
			if string(got) != string(st.want) {
				rr.s.violate("C31", "output held back", "of %d bytes that the command of task %q had written to %s, %d were delivered while it was running on", len(st.want), x.t.ID, st.name, len(got))
			}
		}
		rr.s.probe("output of a running command")
	}
}

// ioFaults tells whether any input or output fault was injected.
func (rr *rbRun) ioFaults() bool {
	for _, e := range rr.s.Events {
		if e.Kind == "fault" && !strings.HasPrefix(e.Who, "task:") {
			return true
		}
	}
	return false
}

func hasForkOut(st []Step) bool {
	for _, s := range st {
		if s.Op == "fork" {
			return true
		}
	}
	return false
}

func applyRules(environ []string, e *EnvRules) []string {
	if e == nil {
		return environ
	}
	in := func(l []string, n string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	var out []string
	for _, kv := range environ {
		n := kv[:strings.Index(kv, "=")]
		if _, ok := e.Set[n]; ok {
			continue
		}
		switch {
		case len(e.Allow) > 0:
			if !in(e.Allow, n) {
				continue
			}
		case in(e.Deny, n):
			continue
		}
		out = append(out, kv)
	}
	for n, v := range e.Set {
		out = append(out, n+"="+v)
	}
	return out
}

// check judges the whole history.
func (rr *rbRun) check(environ []string) {
	s := rr.s
	sc := rr.sc
	err := rr.retErr
	ret := rr.returned
	errText := ""
	if err != nil {
		errText = err.Error()
	}

	// failures that occurred
	var markers []string
	failed, maybe := false, false
	badStart := map[string]bool{}
	anyBadStart := false
	for _, t := range sc.Targets {
		if t.Class == "pg" && !rr.established(t) {
			dialled := false
			srv := rr.servers[t.Srv]
			for _, l := range s.Net.links {
				if l.addr == fmt.Sprintf("%s:%d", srv.cfg.Host, srv.cfg.Port) {
					dialled = true
				}
			}
			if dialled {
				badStart[t.ID] = true
				maybe = true
				markers = append(markers, "refused", "timed out", "EOF", "reset", "simulated refusal", "closed", "TLS", "tls", "broken pipe", "connection", "no route", "too many open files", "no such host", "misbehaving")
			}
		}
		if t.Class == "pg" && rr.mustFailToStart(t) {
			anyBadStart = true
			failed = true
		}
	}
	executedAll := true
	for _, x := range rr.tasks {
		if len(x.starts) == 0 {
			executedAll = false
		}
		eligible := !rr.invalid
		for p := range x.anc {
			q := rr.tasks[p]
			if q.failSeq > 0 || q.t.Kind == "fail" || q.cannot || (q.t.Kind == "exec" || q.t.Kind == "sql") && !q.ok {
				eligible = false
			}
		}
		switch {
		case x.failSeq > 0 && x.t.Kind == "exec":
			failed = true
			for _, p := range x.procs {
				switch {
				case p.Pid == 0:
					for _, f := range sc.Faults {
						if f.Op == "exec" && f.Path == "task:"+fmt.Sprintf("k%d", x.i) {
							markers = append(markers, errnos[f.Err].Error())
						}
					}
				case p.Signal != 0:
					markers = append(markers, "signal: ")
				case p.Code != 0:
					markers = append(markers, fmt.Sprintf("exit status %d", p.Code))
				}
			}
		case x.failSeq > 0 && x.t.Kind == "sql":
			failed = true
			for _, q := range x.queries {
				if q.FaultMsg != "" {
					markers = append(markers, q.FaultMsg)
				}
				markers = append(markers, "EOF", "reset", "nknown message", "broken pipe", "closed", "dead")
			}
		case x.t.Kind == "fail" && (x.failSeq > 0 || eligible):
			if x.failSeq > 0 {
				failed = true
			}
			maybe = true
			markers = append(markers, "fail")
		case x.cannot && eligible:
			maybe = true
			markers = append(markers, "not found", "no such file", "permission denied")
		case x.t.Kind == "sql" && len(x.starts) == 0 && eligible && rr.sessionLost(x.tg):
			maybe = true
			markers = append(markers, "EOF", "reset", "closed", "dead", "broken pipe", "conn")
		}
	}
	for _, f := range s.K.Fired {
		if strings.HasPrefix(f, "pipe") {
			failed = true
			markers = append(markers, "too many open files")
		}
	}
	writerFailed := false
	for _, e := range s.Events {
		if e.Kind == "fault" && (e.Who == "w:stdout" || e.Who == "/dev/stdout" && strings.HasPrefix(e.Arg, "write")) {
			writerFailed = true
			maybe = true
			markers = append(markers, errWriter.Error(), "no space left", "input/output error", "exit status 1", "broken pipe")
		}
	}

	// C05
	if ret {
		switch {
		case err == nil && rr.flawed:
			s.violate("C08", "success of an invalid runbook", "the run reported success although the runbook cannot be loaded (%s)", sc.Flaw)
		case err == nil && rr.invalid:
			s.violate("C05", "success on invalid graph", "the run reported success although the dependency graph is invalid")
			s.violate("C08", "success on invalid graph", "the run reported success although the dependency graph is invalid")
		case err == nil && failed:
			what := "a target could not be started"
			if rr.failTask != nil {
				what = fmt.Sprintf("task %q failed", rr.failTask.t.ID)
			}
			s.violate("C05", "failure not reported", "the run reported success although %s", what)
			if anyBadStart {
				s.violate("C08", "start failure not reported", "the run reported success although a target could not be started")
			}
			if rr.failTask != nil && rr.failTask.t.Kind == "exec" {
				s.violate("C12", "failure not reported", "the run reported success although the command of task %q failed", rr.failTask.t.ID)
			}
			if rr.failTask != nil && rr.failTask.t.Kind == "sql" {
				s.violate("C17", "failure not reported", "the run reported success although the SQL of task %q failed", rr.failTask.t.ID)
			}
		case err == nil:
			for _, x := range rr.tasks {
				vis := x.t.Kind == "exec" || x.t.Kind == "sql" || rr.logInfo && x.t.Msg
				if vis && len(x.starts) == 0 && !(writerFailed && x.t.Kind != "exec" && x.t.Kind != "sql") {
					s.violate("C05", "success without executing everything", "the run reported success although task %q was not executed", x.t.ID)
					s.violate("C02", "task not executed", "task %q was not executed although nothing failed", x.t.ID)
					if x.t.Kind == "sql" {
						s.violate("C17", "success without completion", "the run reported success although the SQL of task %q was never received", x.t.ID)
					}
				} else if x.t.Kind == "fail" || x.cannot {
					s.violate("C05", "failure not reported", "the run reported success although it contains task %q, which can only fail", x.t.ID)
					if x.cannot {
						s.violate("C12", "failure not reported", "the run reported success although the command of task %q cannot be executed", x.t.ID)
					}
				} else if vis && (x.t.Kind == "exec" || x.t.Kind == "sql") && !x.ok {
					s.violate("C05", "success before the work ended", "the run reported success although task %q had not succeeded", x.t.ID)
				}
			}
		case err != nil && !rr.invalid:
			if !failed && !maybe {
				s.violate("C05", "error without failure", "the run reported %q although nothing failed", errText)
				for _, x := range rr.tasks {
					if x.t.Kind == "exec" && len(x.starts) > 0 && x.ok && strings.Contains(errText, "exit") {
						s.violate("C12", "error without failure", "the run reported %q although every command succeeded", errText)
					}
				}
			} else {
				hit := false
				for _, m := range markers {
					if strings.Contains(errText, m) {
						hit = true
					}
				}
				if !hit {
					s.violate("C05", "foreign error", "the run reported %q, which is none of the failures that occurred (%s)", errText, strings.Join(markers, ", "))
				}
			}
		}
		if len(rr.tasks) > 0 && err == nil && executedAll {
			s.probe("all executed")
		}
	}

	if (ret || strings.HasPrefix(s.Hang, "deadlock")) && s.Fatal == "" && !rr.invalid && !failed && !maybe {
		for _, x := range rr.tasks {
			if (x.t.Kind == "exec" || x.t.Kind == "sql" || rr.logInfo && x.t.Msg) && len(x.starts) == 0 {
				s.violate("C02", "task not executed", "task %q was not executed although nothing failed", x.t.ID)
			}
		}
	}

	// C08: targets that cannot be started
	if anyBadStart || (ret && len(badStart) > 0) {
		s.probe("start failure")
		for _, x := range rr.tasks {
			if len(x.starts) > 0 {
				s.violate("C08", "executed despite start failure", "task %q was executed although a target could not be started", x.t.ID)
			}
		}
		for _, t := range sc.Targets {
			if t.Class == "demo" && rr.echoes(t) > 0 {
				s.violate("C08", "executed despite start failure", "a step of target %q was executed although a target could not be started", t.ID)
			}
		}
	}
	if rr.flawed {
		s.probe("invalid runbook")
	}
	if rr.invalid {
		s.probe("invalid graph")
		for _, t := range sc.Targets {
			if t.Class == "demo" && rr.echoes(t) > 0 {
				s.violate("C08", "invalid graph executed", "a step of target %q was executed although the runbook is invalid", t.ID)
			}
		}
	}

	// C10
	if rr.logInfo && !writerFailed && ret {
		for _, x := range rr.tasks {
			if !x.t.Msg {
				continue
			}
			n := len(x.msgs)
			if n > 1 {
				s.violate("C10", "announced repeatedly", "the message of task %q was logged %d times", x.t.ID, n)
			}
			execs := len(x.starts)
			if x.t.Kind == "exec" && !x.cannot && !rr.pipeFaults() {
				if n < execs {
					s.violate("C10", "not announced", "task %q was executed but its message was not logged", x.t.ID)
				}
				if n > execs {
					s.violate("C10", "announced but not executed", "the message of task %q was logged but it was not executed", x.t.ID)
				}
			}
			if x.t.Kind == "sql" {
				if n < execs {
					s.violate("C10", "not announced", "task %q was executed but its message was not logged", x.t.ID)
				}
				if n > execs && !rr.sessionLost(x.tg) {
					s.violate("C10", "announced but not executed", "the message of task %q was logged but it was not executed", x.t.ID)
				}
			}
			if n > 0 && execs > 0 && x.msgs[0] > x.starts[0] {
				s.violate("C10", "announced late", "the message of task %q was logged after it had started", x.t.ID)
			}
			if n == 0 && err == nil && !rr.invalid && x.t.Kind != "exec" && x.t.Kind != "sql" {
				s.violate("C10", "not announced", "the message of task %q was not logged although the run succeeded", x.t.ID)
			}
			if x.t.Kind == "echo" && n > 0 {
				s.probe("announced")
			}
			if n == 1 && execs == 1 {
				s.probe("announced")
			}
			for p := range x.anc {
				q := rr.tasks[p]
				if n > 0 && (q.failSeq > 0 || q.t.Kind == "fail" || q.cannot) {
					s.violate("C10", "announced but not executed", "the message of task %q was logged although its prerequisite %q failed", x.t.ID, q.t.ID)
				}
			}
		}
		if sc.Debug {
			d, _ := s.K.content("/out/debug.log")
			for _, x := range rr.tasks {
				if x.t.Msg {
					n := 0
					for _, l := range strings.Split(d, "\n") {
						if strings.Contains(l, "INFO\t"+msgToken(x.i)) || strings.HasSuffix(l, "INFO\t"+msgToken(x.i)) {
							n++
						}
					}
					if n != len(x.msgs) {
						s.violate("C25", "debug log incomplete", "the message of task %q appears %d times in the default log and %d times in the debug log", x.t.ID, len(x.msgs), n)
					}
				}
			}
		}
	}

	if rr.logInfo && !writerFailed && ret {
		rr.checkShared(err == nil)
	}

	// C11
	tEnv := map[string][]string{}
	for _, t := range sc.Targets {
		tEnv[t.ID] = applyRules(environ, t.Env)
	}
	for _, x := range rr.tasks {
		for _, p := range x.procs {
			want := sc.argv(x.i)
			if strings.Join(p.Argv, "\x00") != strings.Join(want, "\x00") {
				s.violate("C11", "arguments", "task %q was started as %q instead of %q", x.t.ID, p.Argv, want)
			}
			exe := map[string]string{"tool": "/bin/tool", "/bin/tool": "/bin/tool", "./tool": "/work/books/tool", "/bin/noexec": "/bin/noexec"}[x.t.Prog]
			got := p.Path
			if !strings.HasPrefix(got, "/") {
				got = path.Join(p.Dir, got)
			}
			if exe != "" && path.Clean(got) != exe {
				s.violate("C11", "program", "task %q executed %q instead of %q", x.t.ID, got, exe)
			}
			if p.Dir != "/work/books" {
				s.violate("C11", "directory", "task %q was started in %q instead of the runbook's directory", x.t.ID, p.Dir)
			}
			if p.Stdin != "" {
				s.violate("C11", "stdin", "the standard input of task %q was not empty: %q", x.t.ID, p.Stdin)
			}
			if p.Pid != 0 && (p.Fds[0] == nil || p.Fds[1] == nil || p.Fds[2] == nil) {
				s.violate("C11", "descriptors", "task %q was started without standard descriptors", x.t.ID)
			}
			wantEnv := append([]string(nil), applyRules(tEnv[x.tg.ID], x.t.Env)...)
			gotEnv := append([]string(nil), p.Env...)
			sort.Strings(wantEnv)
			sort.Strings(gotEnv)
			if strings.Join(wantEnv, "\x00") != strings.Join(gotEnv, "\x00") {
				s.violate("C11", "environment", "task %q was started with environment %q instead of %q", x.t.ID, gotEnv, wantEnv)
			}
			if len(wantEnv) != len(environ) {
				s.probe("environment filtered")
			}
			s.probe("command started")
		}
	}

	// C12
	if ret {
		for _, x := range rr.tasks {
			if err == nil {
				rr.delivered(x, "when the run returned")
			} else if !writerFailed {
				rr.delivered(x, "when the run returned")
			}
		}
	}

	// C13
	if ret && !writerFailed {
		for _, t := range sc.Targets {
			if t.Class == "demo" {
				rr.checkDemo(t, err == nil && !rr.invalid)
			}
		}
	}

	rr.checkPG()
	if len(rr.tasks) > 1 {
		s.probe("several tasks")
	}
}

func (rr *rbRun) sessionLost(t *RBTarget) bool {
	if t.Class != "pg" {
		return false
	}
	for _, c := range rr.connsOf(t) {
		if c.Ready && (c.l.dead || c.dead) {
			return true
		}
	}
	return false
}

// mustFailToStart reports whether no attempt to start a target can succeed.
func (rr *rbRun) mustFailToStart(t *RBTarget) bool {
	for _, f := range rr.sc.Servers[t.Srv].Faults {
		if f.Conn == 0 && (f.Where == "dial" || f.Where == "auth" || f.Where == "init") {
			return true
		}
	}
	return false
}

// checkDemo looks for an order of a target's steps that explains what was printed.
func (rr *rbRun) checkDemo(t *RBTarget, complete bool) {
	s := rr.s
	lines := rr.demoLines(t)
	var ts []*rbTask
	echo := 0
	for _, x := range rr.tasks {
		if x.tg == t {
			ts = append(ts, x)
			if x.t.Kind == "echo" {
				echo++
			}
		}
	}
	if len(lines) > echo {
		s.violate("C13", "line repeated", "target %q has %d echo steps but printed %d lines", t.ID, echo, len(lines))
		s.violate("C02", "executed twice", "target %q has %d echo steps but printed %d lines", t.ID, echo, len(lines))
		return
	}
	if complete && len(lines) < echo {
		s.violate("C13", "line lost", "target %q has %d echo steps but printed %d whole lines: %q", t.ID, echo, len(lines), lines)
		return
	}
	if len(ts) > 14 || len(lines) == 0 {
		return
	}
	if len(lines) > 1 {
		s.probe("demo lines")
	}
	// search over sets of executed steps
	type key struct{ set, n int }
	seen := map[key]bool{}
	var dfs func(set, n int) bool
	dfs = func(set, n int) bool {
		if n == len(lines) && (!complete || set == 1<<len(ts)-1) {
			return true
		}
		if seen[key{set, n}] {
			return false
		}
		seen[key{set, n}] = true
		text := t.Text
		for i, x := range ts {
			if set&(1<<i) != 0 {
				switch x.t.Kind {
				case "rev":
					text = rev(text)
				case "rot13":
					text = rot13(text)
				}
			}
		}
	next:
		for i, x := range ts {
			if set&(1<<i) != 0 || x.t.Kind == "fail" {
				continue
			}
			for j, y := range ts {
				if set&(1<<j) == 0 && x.anc[y.i] {
					continue next
				}
			}
			m := n
			if x.t.Kind == "echo" {
				if n >= len(lines) || lines[n] != text {
					continue
				}
				m++
			}
			if dfs(set|1<<i, m) {
				return true
			}
		}
		return false
	}
	if !dfs(0, 0) {
		s.violate("C13", "no sequential explanation", "no order of the steps of target %q explains the lines %q", t.ID, lines)
	}
}

// checkPG checks the database sessions.
func (rr *rbRun) checkPG() {
	s := rr.s
	firstTask := 0
	for _, x := range rr.tasks {
		if len(x.starts) > 0 && (firstTask == 0 || x.starts[0] < firstTask) {
			firstTask = x.starts[0]
		}
	}
	for _, t := range rr.sc.Targets {
		if t.Class != "pg" {
			continue
		}
		var ready []*PGConn
		for _, c := range rr.connsOf(t) {
			if c.Ready {
				ready = append(ready, c)
			}
			if rr.returned && !c.l.clientClosed {
				s.violate("C07", "session left open", "target %q left a connection open", t.ID)
			}
		}
		if rr.returned && len(ready) > 0 {
			s.probe("session")
		}
		if len(ready) > 1 {
			s.violate("C07", "several sessions", "target %q opened %d sessions", t.ID, len(ready))
		}
		if firstTask > 0 && (len(ready) == 0 || ready[0].ReadySeq > firstTask) {
			s.violate("C07", "session opened late", "a task started before the session of target %q was open", t.ID)
		}
	}
	for _, srv := range rr.servers {
		for _, q := range srv.queries {
			x := rr.taskOfSQL(q.SQL)
			if x == nil {
				s.violate("C07", "foreign SQL", "SQL that is no task's was sent to %q: %q", q.Conn.DB, q.SQL)
				s.violate("C17", "foreign SQL", "SQL that is no task's was sent to %q: %q", q.Conn.DB, q.SQL)
				continue
			}
			if o := rr.ownerOf(q.Conn); x.tg.ID != o {
				s.violate("C07", "SQL on wrong session", "the SQL of task %q was sent over the session of target %q", x.t.ID, o)
			}
			if q.SQL != rr.sc.sql(x.i) {
				s.violate("C17", "SQL changed", "task %q: sent %q instead of %q", x.t.ID, q.SQL, rr.sc.sql(x.i))
			}
			if len(x.queries) > 1 {
				s.violate("C17", "SQL sent twice", "the SQL of task %q was sent %d times", x.t.ID, len(x.queries))
			}
			s.probe("sql sent")
		}
	}
	// a task whose SQL failed counts as failed: covered by C05; a task whose
	// SQL succeeded must not be reported as failed
	if rr.returned && rr.retErr != nil && !rr.invalid {
		only := true
		for _, x := range rr.tasks {
			if x.t.Kind != "sql" || x.failSeq > 0 || rr.sessionLost(x.tg) {
				only = false
			}
		}
		for _, t := range rr.sc.Targets {
			if t.Class == "pg" && !rr.established(t) {
				only = false
			}
		}
		if only && len(rr.tasks) > 0 {
			s.violate("C17", "error although SQL succeeded", "the run reported %q although the server completed everything", rr.retErr)
		}
	}
}

// checkShared judges a message that several tasks have.
func (rr *rbRun) checkShared(ok bool) {
	s := rr.s
	var starts []int // of the tasks that are seen to start
	least, most := 0, 0
	for _, x := range rr.tasks {
		if !x.t.Shared {
			continue
		}
		sure := x.t.Kind == "exec" && !x.cannot && !rr.pipeFaults() || x.t.Kind == "sql"
		if sure {
			starts = append(starts, x.starts...)
			least += len(x.starts)
		}
		switch {
		case rr.invalid:
		case x.t.Kind == "exec" && sure, x.t.Kind == "sql" && !rr.sessionLost(x.tg):
			most += len(x.starts)
		default:
			most++
			if ok {
				least++
				if sure {
					least -= len(x.starts)
				}
			}
			for p := range x.anc {
				q := rr.tasks[p]
				if q.failSeq > 0 || q.t.Kind == "fail" || q.cannot {
					most--
					break
				}
			}
		}
	}
	n := len(rr.shared)
	if n < least {
		s.violate("C10", "not announced", "at least %d tasks with the same message were executed but it was logged %d times", least, n)
	}
	if n > most {
		s.violate("C10", "announced but not executed", "at most %d tasks with the same message were executed but it was logged %d times", most, n)
	}
	sort.Ints(starts)
	for i, seq := range starts {
		if i >= n || rr.shared[i] > seq {
			s.violate("C10", "announced late", "%d tasks with the same message had started when it had been logged %d times", i+1, min(i, n))
			break
		}
	}
	if n > 1 {
		s.probe("shared message")
	}
}
