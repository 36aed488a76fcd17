//go:build go1.21

package main

// The report commands (version, runbook list, dot and eval) and the demo
// runbook's echo, run through the program's own main function (C22, C23, C24).

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"

	dot "github.com/awalterschulze/gographviz"

	"github.com/sjansen/pgutil/internal/zzmain"
)

// RepScenario is one command and where it writes.
type RepScenario struct {
	Cmd     string     `json:"cmd"` // version, list, dot, eval, run
	Alias   bool       `json:"alias,omitempty"`
	Long    bool       `json:"long,omitempty"`
	Verbose int        `json:"verbose,omitempty"`
	Debug   bool       `json:"debug,omitempty"`
	Splines string     `json:"splines,omitempty"`
	Color   string     `json:"color,omitempty"`
	Targets []RepThing `json:"targets,omitempty"`
	Tasks   []RepTask  `json:"tasks,omitempty"`
	Form    string     `json:"form,omitempty"` // how the runbook is written, or what is wrong with it
	File    string     `json:"file,omitempty"`
	Out     string     `json:"out,omitempty"`     // --output
	AutoOut bool       `json:"autoOut,omitempty"` // -O
	Prev    bool       `json:"prev,omitempty"`    // the output file exists
	PrevTxt string     `json:"prevTxt,omitempty"`
	Place   string     `json:"place,omitempty"` // what is wrong with the output's place: dir, nodir, ro
	Repeat  int        `json:"repeat,omitempty"`
	Faults  []*Fault   `json:"faults,omitempty"`
}

// RepThing is a target.
type RepThing struct {
	ID    string `json:"id"`
	Class string `json:"class"`
	Text  string `json:"text,omitempty"`
}

// RepTask is a task.
type RepTask struct {
	ID     string `json:"id"`
	Target int    `json:"target"`
	Kind   string `json:"kind,omitempty"`
	After  []int  `json:"after,omitempty"` // -1: a task that does not exist
	Msg    string `json:"msg,omitempty"`
}

var badForms = []string{"syntax", "badclass", "badtarget", "badfield", "badkind", "noimport", "badimport", "empty", "notobject", "nullbook", "evalerror", "badanalyze", "nulltarget", "nulltask", "nullbookall", "nullconfig", "noslash"}

func genReport(r *Rand, prop string) any {
	sc := &RepScenario{Cmd: pick(r, "list", "dot", "eval", "dot", "eval"), Repeat: 1, File: pick(r, "books/book.json", "book.jsonnet", "/work/books/book.v2.jsonnet", "books/book")}
	switch prop {
	case "C22":
		sc.Cmd = pick(r, "version", "list", "dot", "eval", "run", "dot", "eval", "run", "list")
	case "C23":
		sc.Cmd = pick(r, "dot", "eval")
	}
	sc.Verbose = pick(r, 0, 0, 0, -1, -2, 1, 2)
	sc.Debug = r.P(1, 8)
	sc.Long = sc.Cmd == "version" && r.P(2, 3)
	sc.Alias = r.P(1, 4)
	// the runbook
	pool := []string{"a", "b", "task", "Task", "task 2", "ta\"sk", "é", "x.y", "x-y", "10", "9", "1a", "zz\\", "node", "graph", "cluster_a", "a:b", "<b>", "graph label", "a;b", "a->b", "日本", "0.5", "-1", "edge", "%", "{}", "//x", "#x", "UPPER", "_", "a'b", "a|b", "", "strict", "subgraph", "digraph", "a\tb"}
	if r.P(1, 6) { // names of which some are the beginnings and ends of others
		pool = []string{"a", "b", "ab"}
		for _, x := range []string{"a", "b", "ab"} {
			for _, y := range []string{"a", "b", "ab"} {
				for _, z := range []string{"", "a", "b"} {
					if w := x + y + z; !hasStr(pool, w) {
						pool = append(pool, w)
					}
				}
			}
		}
	}
	shuffle(r, pool)
	nt := 1 + r.Intn(4)
	for i := 0; i < nt; i++ {
		t := RepThing{ID: pool[i], Class: pick(r, "demo", "demo", "sh", "pg")}
		t.ID = strings.ReplaceAll(t.ID, "/", "_") // a task's target is TARGET/CLASS
		if sc.Cmd == "run" {
			t.Class = "demo"
		}
		t.Text = pick(r, "abc", "hello world", "Ünïcode", "x", strings.Repeat("long ", 30))
		sc.Targets = append(sc.Targets, t)
	}
	for i := range sc.Targets {
		for j := range sc.Targets[:i] {
			if sc.Targets[i].ID == sc.Targets[j].ID {
				sc.Targets[i].ID += "x"
			}
		}
	}
	n := r.Intn(pick(r, 4, 9, 20))
	if prop == "C24" && r.P(1, 2) {
		n += 6
	}
	if n > len(pool)-4 {
		n = len(pool) - 4
	}
	if sc.Cmd != "run" && r.P(1, 25) { // a large runbook, with long names
		n += r.Intn(pick(r, 40, 150))
		for i := 0; i < n; i++ {
			pool = append(pool, fmt.Sprintf("%d", 20+i)+pick(r, "", "", " "+strings.Repeat("long name ", r.Intn(40))+"x", "é"))
		}
	}
	shuffle(r, pool)
	dens := pick(r, 0, 15, 40)
	for i := 0; i < n; i++ {
		t := RepTask{ID: pool[i], Target: r.Intn(nt)}
		if sc.Targets[t.Target].Class == "demo" {
			t.Kind = pick(r, "echo", "echo", "rev", "rot13")
		}
		if sc.Cmd == "run" {
			for j := i - 1; j >= 0; j-- { // a chain on each target, so that its lines are determined
				if sc.Tasks[j].Target == t.Target {
					t.After = append(t.After, j)
					break
				}
			}
		}
		for j := max(0, i-40); j < i; j++ {
			if r.P(dens, 100) && !hasInt(t.After, j) {
				t.After = append(t.After, j)
				if sc.Cmd != "run" && r.P(1, 10) {
					t.After = append(t.After, j) // named twice
				}
			}
		}
		if sc.Cmd != "run" && r.P(1, 20) {
			t.After = append(t.After, pick(r, -1, i))
		}
		if r.P(1, 4) {
			t.Msg = pick(r, "message", "two\nlines", "é")
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	sc.Form = pick(r, "json", "json", "import", "local", "object")
	if sc.Cmd == "dot" {
		sc.Splines = pick(r, "", "", "curved", "line", "ortho")
	}
	if sc.Cmd == "eval" {
		sc.Color = pick(r, "", "", "auto", "true", "false")
	}
	if sc.Cmd == "dot" || sc.Cmd == "eval" {
		sc.Out = pick(r, "", "-", "/out/x.txt", "x.txt", "books/out.dot", "/out/x.txt", "../out/x.txt")
		if prop == "C23" {
			sc.Out = pick(r, "/out/x.txt", "x.txt", "books/out.dot")
		}
		if sc.Cmd == "dot" && r.P(1, 6) {
			sc.AutoOut, sc.Out = true, ""
		}
	}
	if r.P(1, 2) || prop == "C23" && r.P(1, 2) {
		sc.Prev = true
		sc.PrevTxt = pick(r, "", "precious\n", strings.Repeat("old content line\n", 300))
	}
	faultDest := func() {
		d := sc.dest()
		if sc.Cmd == "run" && len(sc.Tasks) > 0 {
			sc.Verbose = pick(r, 0, -1)
		}
		at := int64(pick(r, 0, 1, r.Intn(20), r.Intn(200), r.Intn(2000), 9+r.Intn(12)))
		e := pick(r, "ENOSPC", "EIO", "EDQUOT", "EFBIG")
		if d != "/dev/stdout" { // which a broken pipe ends the process for
			e = pick(r, e, e, e, "EPIPE", "ENXIO", "ENODEV", "EPERM")
		}
		switch r.Intn(8) {
		case 0:
			if d != "/dev/stdout" {
				sc.Faults = append(sc.Faults, &Fault{Op: "open", Path: d, Err: pick(r, "EACCES", "EROFS", "ENOSPC", "EMFILE", "ENFILE", "ENXIO", "EPERM")})
				return
			}
			fallthrough
		case 1, 2, 3:
			sc.Faults = append(sc.Faults, &Fault{Op: "write", Path: d, At: at, Err: e})
		case 4:
			if d != "/dev/stdout" {
				sc.Faults = append(sc.Faults, &Fault{Op: "close", Path: d, Err: pick(r, "EIO", "ENOSPC", "EDQUOT", "EPIPE")})
				return
			}
			fallthrough
		case 5:
			sc.Faults = append(sc.Faults, &Fault{Op: "write1", Path: d, Nth: 1 + r.Intn(pick(r, 2, 8)), Err: e})
		case 6:
			sc.Faults = append(sc.Faults, &Fault{Op: "short", Path: d, At: int64(1 + r.Intn(40))})
		case 7:
			sc.Faults = append(sc.Faults, &Fault{Op: "eintr", Path: d})
		}
	}
	faultIn := func() {
		f := "/work/books/lib.libsonnet"
		if sc.Form != "import" || r.P(1, 2) {
			f = sc.book()
		}
		switch r.Intn(5) {
		case 0, 1:
			sc.Faults = append(sc.Faults, &Fault{Op: "open", Path: f, Err: pick(r, "EACCES", "EMFILE", "EIO", "ENOENT")})
		case 2, 3:
			sc.Faults = append(sc.Faults, &Fault{Op: "read", Path: f, At: int64(pick(r, 0, 1, r.Intn(100), r.Intn(600))), Err: "EIO"})
		default:
			sc.Faults = append(sc.Faults, &Fault{Op: "short", Path: f, At: int64(1 + r.Intn(20))})
		}
	}
	switch prop {
	case "C22":
		if r.P(7, 8) {
			faultDest()
		}
		if r.P(1, 6) {
			faultDest()
		}
		if r.P(1, 10) && sc.dest() != "/dev/stdout" {
			sc.Place = pick(r, "dir", "nodir", "ro")
		}
		if r.P(1, 12) {
			faultIn()
		}
	case "C23":
		if r.P(3, 5) {
			sc.Form = pick(r, badForms...)
		} else {
			if r.P(1, 3) {
				sc.Form = "import"
			}
			faultIn()
		}
		if r.P(1, 8) {
			sc.Place = "ro"
		}
	case "C24":
		sc.Repeat = 2 + r.Intn(3)
	default:
		sc.Repeat = 1 + r.Intn(2)
		if r.P(1, 2) {
			faultDest()
		}
		if r.P(1, 4) {
			faultIn()
		}
	}
	if sc.Cmd == "run" {
		sc.Repeat = 1
		sc.Verbose = pick(r, 0, -1)
	}
	return sc
}

func hasStr(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func hasInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (sc *RepScenario) book() string {
	if strings.HasPrefix(sc.File, "/") {
		return path.Clean(sc.File)
	}
	return path.Join("/work", sc.File)
}

// dest is the absolute path of the destination.
func (sc *RepScenario) dest() string {
	o := sc.Out
	if sc.AutoOut && sc.Out == "" && sc.Cmd == "dot" {
		b := sc.book()
		o = strings.TrimSuffix(b, path.Ext(b)) + ".dot"
	}
	if o == "" || o == "-" {
		return "/dev/stdout"
	}
	if !strings.HasPrefix(o, "/") {
		o = path.Join("/work", o)
	}
	return o
}

func (sc *RepScenario) valid() bool {
	switch sc.Cmd {
	case "version", "list", "dot", "eval", "run":
	default:
		return false
	}
	seen := map[string]bool{}
	for _, t := range sc.Targets {
		if seen[t.ID] || strings.Contains(t.ID, "/") || sc.Cmd == "run" && t.Class != "demo" {
			return false
		}
		seen[t.ID] = true
	}
	seen = map[string]bool{}
	last := map[int]int{}
	for i, t := range sc.Tasks {
		if seen[t.ID] || t.Target < 0 || t.Target >= len(sc.Targets) {
			return false
		}
		seen[t.ID] = true
		if (t.Kind == "") == (sc.Targets[t.Target].Class == "demo") {
			return false
		}
		for _, a := range t.After {
			if a >= len(sc.Tasks) || a < -1 || sc.Cmd == "run" && (a < 0 || a >= i) {
				return false
			}
		}
		if sc.Cmd == "run" {
			if l, ok := last[t.Target]; ok && !hasInt(t.After, l) {
				return false
			}
			last[t.Target] = i
		}
	}
	if sc.Repeat < 1 || sc.File == "" {
		return false
	}
	if sc.Cmd == "run" && (sc.Repeat != 1 || sc.Verbose > 0) {
		return false
	}
	return sc.Place == "" || sc.dest() != "/dev/stdout"
}

// text is the runbook file.
func (sc *RepScenario) text() string {
	targets := map[string]any{}
	for i, t := range sc.Targets {
		m := map[string]any{"class": t.Class}
		switch t.Class {
		case "demo":
			m["config"] = map[string]any{"String": t.Text}
		case "pg":
			m["config"] = map[string]any{"host": "h.example", "database": "d"}
		}
		if sc.Form == "badclass" && i == len(sc.Targets)-1 {
			m["class"] = "nonsense"
		}
		targets[t.ID] = m
	}
	tasks := map[string]any{}
	for i, t := range sc.Tasks {
		tg := sc.Targets[t.Target]
		m := map[string]any{"target": tg.ID}
		switch tg.Class {
		case "demo":
			m["target"] = tg.ID + "/" + t.Kind
		case "sh":
			m["config"] = map[string]any{"Args": []string{"tool", t.ID}}
		case "pg":
			m["config"] = map[string]any{"sql": "select 1 -- " + t.ID}
		}
		if t.Msg != "" {
			m["message"] = t.Msg
		}
		var after []string
		for _, a := range t.After {
			if a < 0 {
				after = append(after, "no such task")
			} else {
				after = append(after, sc.Tasks[a].ID)
			}
		}
		if after != nil {
			m["after"] = after
		}
		if i == len(sc.Tasks)-1 {
			switch sc.Form {
			case "badtarget":
				m["target"] = "nonexistent"
			case "badfield":
				m["befor"] = []string{}
			case "badkind":
				m["target"] = tg.ID + "/nonsense"
			}
		}
		tasks[t.ID] = m
	}
	switch sc.Form {
	case "nulltarget":
		targets["none"] = nil
	case "nulltask":
		tasks["none"] = nil
	case "nullconfig":
		targets["none"] = map[string]any{"class": "sh", "config": nil}
		tasks["none"] = map[string]any{"target": "none", "config": nil, "after": nil, "message": nil}
	case "noslash":
		tasks["none"] = map[string]any{"target": "/"}
	}
	book := map[string]any{"targets": targets, "tasks": tasks}
	if sc.Form == "nullbookall" {
		book = nil
	}
	b, err := json.MarshalIndent(book, "", "  ")
	if err != nil {
		panic(err)
	}
	js := string(b)
	switch sc.Form {
	case "import":
		return "local lib = import 'lib.libsonnet';\nlib + {\n  tasks+: {},\n}\n"
	case "local":
		return "local book = " + js + ";\nbook\n"
	case "object":
		return "{ ['tar' + 'gets']: " + jsonOf(targets) + ",\n tasks: { [k]: $.all[k] for k in std.objectFields($.all) },\n all:: " + jsonOf(tasks) + " }\n"
	case "syntax":
		return js[:len(js)*2/3]
	case "noimport":
		return "(import 'missing.libsonnet') + " + js
	case "badimport":
		return "(import 'broken.libsonnet') + " + js
	case "empty":
		return ""
	case "notobject":
		return "[1, 2, 3]\n"
	case "nullbook":
		return "{ targets: 7 }\n"
	case "evalerror":
		return "local f(x) = if x == 0 then error 'boom' else f(x - 1);\n" + js + " + { tasks+: { zz: f(3) } }\n"
	}
	return js
}

// bad tells whether the command must fail because of the runbook; known is false if that depends on the command.
func (sc *RepScenario) bad() (bad, known bool) {
	switch sc.Form {
	case "json", "import", "local", "object":
		for _, t := range sc.Tasks {
			if hasInt(t.After, -1) {
				return false, false // whether such a graph can be drawn is not specified
			}
		}
		return false, true
	case "syntax", "noimport", "badimport", "empty", "evalerror":
		return sc.Cmd != "version", true
	}
	return false, false
}

type repRun struct {
	s    *Sim
	sc   *RepScenario
	code int
	ok   bool // the invocation ended

	atEnd func() // called at that moment
}

// invoke runs the program with args; it reports false if it never ended.
func (rr *repRun) invoke(args []string) bool {
	s := rr.s
	os.Args = append([]string{"pgutil"}, args...)
	ended := make(chan struct{})
	rr.code, rr.ok = 0, false
	s.onExit = func(code int) {
		if !rr.ok {
			rr.code, rr.ok = code, true
			if rr.atEnd != nil {
				rr.atEnd()
			}
			close(ended)
		}
	}
	s.ev("invoke", "", "%q", args)
	go func() {
		runtime.SimMark(false)
		zzmain.Main()
		if !rr.ok {
			rr.ok = true
			if rr.atEnd != nil {
				rr.atEnd()
			}
			close(ended)
		}
	}()
	select {
	case <-ended:
	case <-s.abort:
		select {
		case <-ended:
		default:
			return false
		}
	}
	s.ev("exit", "", "status %d", rr.code)
	return true
}

func (sc *RepScenario) args(verbose int, out string) []string {
	var a []string
	for i := 0; i < verbose; i++ {
		a = append(a, "-v")
	}
	for i := 0; i < -verbose; i++ {
		a = append(a, "-q")
	}
	if sc.Debug {
		a = append(a, "--debug", "/out/debug.log")
	}
	switch sc.Cmd {
	case "version":
		a = append(a, "version")
		if sc.Long {
			a = append(a, pick(newRand(1), "--long"))
		}
		return a
	case "list":
		if sc.Alias {
			return append(a, "runbook", "ls", sc.File)
		}
		return append(a, "runbook", "list", sc.File)
	case "run":
		if sc.Alias {
			return append(a, "runbook", sc.File)
		}
		return append(a, "runbook", "run", sc.File)
	case "dot":
		a = append(a, "runbook", "dot")
		if sc.Splines != "" {
			a = append(a, "--splines", sc.Splines)
		}
		if sc.AutoOut && out == "" {
			a = append(a, "-O")
		}
	case "eval":
		a = append(a, "runbook", "eval")
		if sc.Color != "" {
			a = append(a, "--color", sc.Color)
		}
	}
	if out != "" {
		switch {
		case sc.Alias:
			a = append(a, "-o"+out)
		case out == "-":
			a = append(a, "--output=-")
		default:
			a = append(a, "--output", out)
		}
	}
	return append(a, sc.File)
}

func runReport(s *Sim, scAny any) {
	sc := scAny.(*RepScenario)
	rr := &repRun{s: s, sc: sc}
	k := s.K
	k.mkdirs("/work/books")
	k.file(sc.book(), sc.text(), 0644)
	k.file(path.Join(path.Dir(sc.book()), "broken.libsonnet"), "{ broken: ", 0644)
	{
		c := *sc
		c.Form = "json"
		k.file(path.Join(path.Dir(sc.book()), "lib.libsonnet"), c.text(), 0644)
	}
	dest := sc.dest()
	std := dest == "/dev/stdout"
	report := sc.Cmd != "run"
	// the reference: the same command without faults, as quiet as it gets
	k.exempt = true
	refOut := ""
	if !std {
		refOut = "/out/ref.out"
	}
	bad, known := sc.bad()
	mark := len(k.streams["/dev/stdout"])
	if !rr.invoke(sc.args(-1, refOut)) {
		s.violate(propOr(sc), "hang", "the command did not end: %s%s", s.Fatal, s.Hang)
		return
	}
	refOK := rr.code == 0
	ref := k.since("/dev/stdout", mark)
	if !std {
		ref, _ = k.content(refOut)
	}
	if known && bad == refOK {
		if bad {
			s.probe("invalid book accepted")
		} else {
			s.violate("C24", "valid input rejected", "the command failed on a valid runbook without any fault:\n%s", k.since("/dev/stdout", mark))
			return
		}
	}
	if refOK {
		s.probe("reference")
		rr.semantics(ref)
	}
	// the output's place
	if !std {
		switch sc.Place {
		case "dir":
			k.mkdirs(dest)
		case "nodir":
			for p := range k.nodes {
				if p == path.Dir(dest) && p != "/work" && p != path.Dir(sc.book()) {
					delete(k.nodes, p)
				}
			}
		default:
			if sc.Prev {
				mode := uint32(0644)
				if sc.Place == "ro" {
					mode = 0444
				}
				k.file(dest, sc.PrevTxt, mode)
			}
		}
	}
	before, had := k.content(dest)
	k.exempt = false
	for _, f := range sc.Faults {
		c := *f
		k.faults = append(k.faults, &c)
	}
	for i := 0; i < sc.Repeat; i++ {
		fired := len(k.Fired)
		mark := len(k.streams["/dev/stdout"])
		if !rr.invoke(sc.args(sc.Verbose, sc.outArg())) {
			s.violate(propOr(sc), "hang", "the command did not end: %s%s", s.Fatal, s.Hang)
			return
		}
		destFault := false
		for _, f := range k.Fired[fired:] {
			s.probe("fault fired")
			if strings.Contains(f, " "+dest+" ") {
				destFault = true
				s.probe("destination fault")
			}
		}
		got := k.since("/dev/stdout", mark)
		if !std {
			got, _ = k.content(dest)
		}
		if rr.code == 0 {
			s.probe("succeeded")
			if report {
				if !refOK {
					s.violate("C24", "succeeded once", "invocation %d succeeded although the same command had failed", i+1)
				} else if std && sc.Verbose > 0 {
					if !logThen(got, ref, destFault) {
						s.violate("C22", "success with wrong output: "+sc.Cmd, "the command succeeded, but standard output is %s instead of %s preceded by log messages", brief(got), brief(ref))
					}
				} else if got != ref {
					sig, p := "success with wrong output: "+sc.Cmd, "C22"
					if len(k.Fired) == 0 {
						sig, p = "outputs differ: "+sc.Cmd, "C24"
						if !std && sc.Repeat == 1 {
							p = "C22"
						}
					}
					s.violate(p, sig, "invocation %d succeeded, but %s holds %s instead of %s (faults: %v)", i+1, dest, brief(got), brief(ref), k.Fired)
				}
			} else if refOK && sortedLines(got) != sortedLines(ref) {
				s.violate("C22", "success with wrong output: run", "the run succeeded, but printed %s instead of the lines of %s (faults: %v)", brief(got), brief(ref), k.Fired)
			}
			continue
		}
		s.probe("failed")
		if refOK && len(k.Fired) == 0 && sc.Place == "" {
			s.violate("C24", "failed once", "invocation %d failed although the same command had succeeded and nothing is wrong: %s", i+1, brief(k.since("/dev/stdout", mark)))
		}
		if !std && !destFault {
			after, has := k.content(dest)
			if sc.Place == "dir" {
				has, had = false, false
			}
			switch {
			case had && !has:
				s.violate("C23", "output file removed", "%s failed before writing anything, and %s is gone", sc.Cmd, dest)
			case !had && has:
				s.violate("C23", "output file created: "+sc.Cmd, "%s failed because of its input, and created %s (%d bytes)", sc.Cmd, dest, len(after))
			case had && after != before:
				s.violate("C23", "output file overwritten: "+sc.Cmd, "%s failed because of its input, and %s changed from %s to %s", sc.Cmd, dest, brief(before), brief(after))
			}
			if refOK == false || len(k.Fired) > 0 {
				s.probe("early failure")
			}
		}
		before, had = k.content(dest)
	}
}

func (sc *RepScenario) outArg() string {
	if sc.AutoOut {
		return ""
	}
	return sc.Out
}

func propOr(sc *RepScenario) string {
	if len(sc.Faults) > 0 {
		return "C22"
	}
	for _, f := range badForms {
		if sc.Form == f {
			return "C23"
		}
	}
	return "C24"
}

func brief(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q…%q (%d bytes)", s[:150], s[len(s)-100:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// since is what was written to a stream after the first n writes.
func (k *Kernel) since(name string, n int) string {
	var sb strings.Builder
	for _, w := range k.streams[name][n:] {
		sb.Write(w.Data)
	}
	return sb.String()
}

// logThen tells whether got is ref with log lines before or after it.
// After a fault a log message may be incomplete.
func logThen(got, ref string, torn bool) bool {
	logs := func(part string) bool {
		for _, l := range strings.SplitAfter(part, "\n") {
			ok := l == ""
			for _, lv := range []string{"DEBUG", "INFO", "WARN", "ERROR"} {
				if strings.HasPrefix(l, lv+"\t") || torn && l != "" && l[0] == lv[0] {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for i := 0; i+len(ref) <= len(got); i++ {
		if strings.HasPrefix(got[i:], ref) && logs(got[:i]) && logs(got[i+len(ref):]) && (torn || i == 0 || got[i-1] == '\n') {
			return true
		}
	}
	return false
}

func sortedLines(s string) string {
	l := strings.SplitAfter(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "")
}

// semantics checks what the list and the graph contain.
func (rr *repRun) semantics(ref string) {
	s, sc := rr.s, rr.sc
	if sc.Form != "json" && sc.Form != "import" && sc.Form != "local" && sc.Form != "object" {
		return
	}
	switch sc.Cmd {
	case "list":
		var ids []string
		target := map[string]string{}
		for _, t := range sc.Tasks {
			ids = append(ids, t.ID)
			target[t.ID] = sc.Targets[t.Target].ID
		}
		sort.Strings(ids)
		lines := strings.Split(strings.TrimSuffix(ref, "\n"), "\n")
		if len(lines) < len(ids) {
			s.violate("C24", "list incomplete", "list printed %d lines for %d tasks: %s", len(lines), len(ids), brief(ref))
			return
		}
		head := lines[:len(lines)-len(ids)]
		if len(head) > 1 {
			s.violate("C24", "list has more lines than tasks", "list printed %d lines for %d tasks: %s", len(lines), len(ids), brief(ref))
		}
		for i, id := range ids {
			l := strings.TrimLeft(lines[len(head)+i], " ")
			if !strings.HasPrefix(l, id) || strings.Trim(strings.TrimPrefix(l, id), " ") != target[id] {
				s.violate("C24", "list wrong", "line %d of the list is %q instead of task %q with target %q", i+1, lines[len(head)+i], id, target[id])
				return
			}
		}
		if len(ids) > 1 {
			s.probe("several listed")
		}
	case "dot":
		g, err := dot.Read([]byte(ref))
		if err != nil {
			s.violate("C24", "dot unreadable", "the graph does not parse: %v: %s", err, brief(ref))
			return
		}
		want := map[string]int{}
		for _, t := range sc.Tasks {
			want[t.ID] = 1
		}
		// a node statement declares a task; an edge mentions two
		nodes := map[string]int{}
		for _, n := range g.Nodes.Nodes {
			nodes[unquoteDot(n.Name)]++
		}
		edges := map[[2]string]int{}
		for _, e := range g.Edges.Edges {
			edges[[2]string{unquoteDot(e.Src), unquoteDot(e.Dst)}]++
		}
		for _, t := range sc.Tasks {
			if nodes[t.ID] != 1 {
				s.violate("C24", "dot misses a task", "task %q occurs %d times in %s", t.ID, nodes[t.ID], brief(ref))
				return
			}
			seen := map[int]bool{}
			for _, a := range t.After {
				src := "no such task"
				if a >= 0 {
					src = sc.Tasks[a].ID
				}
				if n := edges[[2]string{src, t.ID}]; n != 1 {
					s.violate("C24", fmt.Sprintf("dot has an edge %s", map[bool]string{true: "more than once", false: "missing"}[n > 1]), "the dependency of %q on %q occurs %d times in %s", t.ID, src, n, brief(ref))
					return
				}
				seen[a] = true
			}
		}
		total := 0
		for _, t := range sc.Tasks {
			m := map[int]bool{}
			for _, a := range t.After {
				m[a] = true
			}
			total += len(m)
		}
		if len(g.Edges.Edges) != total {
			s.violate("C24", "dot has other edges", "%d edges for %d dependencies in %s", len(g.Edges.Edges), total, brief(ref))
		}
		if len(sc.Tasks) > 1 {
			s.probe("several listed")
		}
	case "eval":
		s.probe("several listed")
	}
}

// unquoteDot is the text a name stands for.
func unquoteDot(s string) string {
	if len(s) < 2 || s[0] != '"' {
		return s
	}
	s = s[1 : len(s)-1]
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '\\' || s[i+1] == '"') {
			i++
		}
		sb.WriteByte(s[i])
	}
	return html.UnescapeString(sb.String())
}

func init() {
	workloads["report"] = &Workload{
		name: "report", gen: genReport,
		blank:  func() any { return &RepScenario{} },
		valid:  func(sc any) bool { return sc.(*RepScenario).valid() },
		stalls: func(sc any) bool { return false },
		body:   runReport,
		nontriv: func(s *Sim, prop string) bool {
			switch prop {
			case "C22":
				return s.Probes["destination fault"] > 0
			case "C23":
				return s.Probes["early failure"] > 0
			case "C24":
				return s.Probes["several listed"] > 0
			}
			return true
		},
	}
	for _, p := range []string{"C22", "C23", "C24"} {
		propWork[p] = append(propWork[p], "report")
	}
}
