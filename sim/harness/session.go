//go:build go1.21

package main

// Sessions of the package pg used as a library (C29): several requests, one
// after the other on each connection, some of which fail.

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
)

// SesScenario is a server and the sessions that use it.
type SesScenario struct {
	Cfg      *PGConf   `json:"cfg"`
	Cat      *CatSpec  `json:"cat"`
	Perm     uint64    `json:"perm,omitempty"`
	Sessions []Session `json:"sessions"`
	Verbose  int       `json:"verbose,omitempty"`
	Stalls   bool      `json:"stalls,omitempty"`
}

// Session is what is asked on one connection.
type Session struct {
	StartNS int64    `json:"startNS,omitempty"`
	Cat     *CatSpec `json:"cat,omitempty"` // its database's content, if not the common one
	Ops     []SesOp  `json:"ops"`
}

// SesOp is a request.
type SesOp struct {
	Kind    string        `json:"kind"`
	Schema  string        `json:"schema,omitempty"`
	Table   string        `json:"table,omitempty"`
	Name    string        `json:"name,omitempty"`
	SQL     string        `json:"sql,omitempty"`
	Err     string        `json:"err,omitempty"`    // exec: the server's answer is this error's SQLSTATE
	Change  string        `json:"change,omitempty"` // exec: what it does to the database: drop or replace a function, drop a trigger, an index or a check
	At      [2]int        `json:"at,omitempty"`
	WaitNS  int64         `json:"waitNS,omitempty"`
	Sort    [3]bool       `json:"sort,omitempty"`
	err     error         // the outcome
	db      *ddl.Database // the answer
	version string
	from    int // the session's queries before and after
	to      int
	lost    bool // the connection was lost before the request ended
	is      *sesDB
}

// sesDB is the state of a database.
type sesDB struct {
	spec *CatSpec
	cat  *Catalog
	want *xDB
}

// changed is what a statement makes of a database; nil if there is nothing to change.
func (op *SesOp) changed(cs *CatSpec) *CatSpec {
	n := *cs
	i, j := op.At[0], op.At[1]
	if i < 0 || j < 0 {
		return nil
	}
	n.Tables = append([]CTable(nil), cs.Tables...)
	n.Funcs = append([]CFunc(nil), cs.Funcs...)
	if op.Change == "drop function" || op.Change == "replace function" {
		if i >= len(n.Funcs) {
			return nil
		}
		if op.Change == "drop function" {
			n.Funcs = append(n.Funcs[:i], n.Funcs[i+1:]...)
		} else {
			n.Funcs[i].Def += "\n-- replaced"
		}
		return &n
	}
	if i >= len(n.Tables) {
		return nil
	}
	t := &n.Tables[i]
	switch op.Change {
	case "drop trigger":
		if j >= len(t.Trg) {
			return nil
		}
		t.Trg = append(append([]CTrg(nil), t.Trg[:j]...), t.Trg[j+1:]...)
	case "drop index":
		if j >= len(t.Idx) {
			return nil
		}
		t.Idx = append(append([]CIdx(nil), t.Idx[:j]...), t.Idx[j+1:]...)
	case "drop check":
		if j >= len(t.Checks) {
			return nil
		}
		t.Checks = append(append([]CCheck(nil), t.Checks[:j]...), t.Checks[j+1:]...)
	default:
		return nil
	}
	return &n
}

var sesKinds = []string{"function", "function", "function", "trigger", "trigger", "functions", "schemas", "sequences", "tables", "columns", "checks", "foreign keys", "parameters", "storage", "indexes", "triggers", "version", "exec", "inspect"}

func genSession(r *Rand, prop string) any {
	sc := &SesScenario{Verbose: pick(r, -1, 0, 1), Perm: uint64(r.Intn(3)), Stalls: r.P(1, 4)}
	w := &ConnWay{Host: "db1", SSL: "disable", PortBy: "opt"}
	sc.Cfg = genServer(r, w, prop)
	sc.Cfg.Auth, sc.Cfg.Password, sc.Cfg.TLS = "", "", ""
	sc.Cat = genCat(r, prop, pick(r, 1, 2, 2, 3, 4))
	cat := sc.Cat
	if r.P(1, 5) {
		cat.Odd, cat.OddAt = pick(r, "check", "foreign key", "index", "trigger", "storage parameter"), r.Intn(2)
	}
	total := 0
	for i := 0; i < pick(r, 1, 1, 1, 2, 3); i++ {
		ses := Session{StartNS: pick(r, int64(0), 0, int64(r.Intn(3e6)))}
		cat := sc.Cat
		if i > 0 && r.P(1, 2) { // the same schemas and perhaps names, other content
			ses.Cat = genCat(r, prop, pick(r, 1, 2, 3))
			for ses.Cat.Ver != cat.Ver {
				ses.Cat = genCat(r, prop, pick(r, 1, 2, 3))
			}
			cat = ses.Cat
			if r.P(1, 5) {
				cat.Odd, cat.OddAt = pick(r, "check", "foreign key", "index", "trigger", "storage parameter"), r.Intn(2)
			}
		}
		schema := func() string {
			if r.P(1, 10) {
				return pick(r, "pg_catalog", "nowhere", "", "Public")
			}
			return cat.Schemas[r.Intn(len(cat.Schemas))].Name
		}
		for j := 0; j < 2+r.Intn(pick(r, 3, 8)); j++ {
			op := SesOp{Kind: pick(r, sesKinds...)}
			if r.P(1, 6) {
				op.WaitNS = pick(r, int64(1e6), int64(1e9), int64(3600e9))
			}
			if n := len(ses.Ops); n > 0 && r.P(1, 4) { // the same again
				op = ses.Ops[r.Intn(n)]
				ses.Ops = append(ses.Ops, op)
				continue
			}
			switch op.Kind {
			case "function":
				op.Schema, op.Name = schema(), pick(r, "f", "nothing", "F", "now")
				if len(cat.Funcs) > 0 && r.P(4, 5) {
					f := cat.Funcs[r.Intn(len(cat.Funcs))]
					op.Name = f.Name
					if r.P(4, 5) {
						op.Schema = cat.Schemas[f.Schema].Name
					}
				}
			case "trigger", "columns", "checks", "foreign keys", "storage", "indexes", "triggers":
				op.Schema, op.Table = schema(), "nothing"
				if len(cat.Tables) > 0 && r.P(6, 7) {
					t := cat.Tables[r.Intn(len(cat.Tables))]
					for q := 0; q < 4 && len(t.Trg) == 0; q++ { // better one with triggers
						t = cat.Tables[r.Intn(len(cat.Tables))]
					}
					op.Table = t.Name
					if r.P(5, 6) {
						op.Schema = cat.Schemas[t.Schema].Name
					}
					if op.Kind == "trigger" {
						op.Name = "nothing"
						if len(t.Trg) > 0 && r.P(6, 7) {
							op.Name = t.Trg[r.Intn(len(t.Trg))].Name
						}
					}
				}
			case "exec":
				op.SQL = fmt.Sprintf("UPDATE t%d_%d SET a = 1;", i, j)
				if r.P(1, 3) {
					op.Err = pick(r, sqlStates...)
				}
				if n := len(ses.Ops); n > 0 && r.P(3, 4) {
					// what was asked for before changes, and is asked for again
					last := ses.Ops[n-1]
					for q := range cat.Funcs {
						if last.Kind == "function" && cat.Funcs[q].Name == last.Name {
							op.Change, op.At = pick(r, "drop function", "replace function"), [2]int{q}
						}
					}
					for q := range cat.Tables {
						t := &cat.Tables[q]
						if last.Table != t.Name || last.Schema != cat.Schemas[t.Schema].Name {
							continue
						}
						if (last.Kind == "trigger" || last.Kind == "triggers") && len(t.Trg) > 0 {
							op.Change, op.At = "drop trigger", [2]int{q, r.Intn(len(t.Trg))}
							for z, g := range t.Trg {
								if g.Name == last.Name {
									op.At[1] = z
								}
							}
						}
						if last.Kind == "indexes" && len(t.Idx) > 0 {
							op.Change, op.At = "drop index", [2]int{q, r.Intn(len(t.Idx))}
						}
						if last.Kind == "checks" && len(t.Checks) > 0 {
							op.Change, op.At = "drop check", [2]int{q, r.Intn(len(t.Checks))}
						}
					}
					if op.Change == "" && len(cat.Funcs) > 0 {
						op.Change, op.At = pick(r, "drop function", "replace function"), [2]int{r.Intn(len(cat.Funcs))}
					}
					if r.P(3, 4) {
						ses.Ops = append(ses.Ops, op)
						op = last
					}
				}
			case "inspect":
				op.Sort = [3]bool{r.P(1, 2), r.P(1, 2), r.P(1, 2)}
			}
			ses.Ops = append(ses.Ops, op)
		}
		total += len(ses.Ops)
		sc.Sessions = append(sc.Sessions, ses)
	}
	for i := 0; i < pick(r, 0, 1, 1, 2); i++ {
		if r.P(1, 5) {
			sc.Cfg.CutConn, sc.Cfg.CutAt, sc.Cfg.CutKind = 1+r.Intn(len(sc.Sessions)), int64(2000+r.Intn(pick(r, 3000, 20000))), pick(r, "close", "reset")
			continue
		}
		f := PGFault{Where: "query", Nth: 1 + r.Intn(total+3), Stage: pick(r, "parse", "bind", "rows", "rows", "rows", "commit"), Kind: pick(r, "error", "error", "error", "close", "reset", "badmsg"), Code: pick(r, sqlStates...), Msg: "simulated failure"}
		if f.Stage == "rows" {
			f.At = r.Intn(pick(r, 1, 2, 4))
		}
		if r.P(1, 6) {
			f.Stage, f.NS = "stall", int64(pick(r, 1000000, 90000000000, 7200000000000))
		}
		sc.Cfg.Faults = append(sc.Cfg.Faults, f)
	}
	return sc
}

func (sc *SesScenario) valid() bool {
	if sc.Cfg == nil || sc.Cat == nil || !sc.Cat.valid() || sc.Cfg.Auth != "" || sc.Cfg.TLS != "" || sc.Cfg.Host != "db1" || sc.Cfg.Port < 1 || sc.Cfg.Port > 65535 || sc.Cfg.Version == "" || len(sc.Sessions) == 0 {
		return false
	}
	for _, s := range sc.Sessions {
		if s.StartNS < 0 || s.Cat != nil && !s.Cat.valid() {
			return false
		}
		for _, op := range s.Ops {
			known := false
			for _, k := range sesKinds {
				known = known || k == op.Kind
			}
			if !known || op.WaitNS < 0 || op.Kind == "exec" && op.SQL == "" {
				return false
			}
		}
	}
	return true
}

// ask carries out a request.
func (op *SesOp) ask(c *pg.Conn) {
	db := &ddl.Database{}
	t := &ddl.Table{Schema: op.Schema, Name: op.Table}
	switch op.Kind {
	case "function":
		var f *ddl.Function
		if f, op.err = c.DescribeFunction(op.Schema, op.Name); f != nil {
			db.Functions = append(db.Functions, f)
		}
	case "trigger":
		var g *ddl.Trigger
		if g, op.err = c.DescribeTrigger(op.Schema, op.Table, op.Name); g != nil {
			db.Triggers = append(db.Triggers, g)
		}
	case "functions":
		db.Functions, op.err = c.ListFunctions()
	case "schemas":
		db.Schemas, op.err = c.ListSchemas()
	case "sequences":
		db.Sequences, op.err = c.ListSequences()
	case "tables":
		db.Tables, op.err = c.ListTables()
	case "columns":
		t.Columns, op.err = c.ListColumns(op.Schema, op.Table)
		db.Tables = append(db.Tables, t)
	case "checks":
		t.Checks, op.err = c.ListChecks(op.Schema, op.Table)
		db.Tables = append(db.Tables, t)
	case "foreign keys":
		t.ForeignKeys, op.err = c.ListForeignKeys(op.Schema, op.Table)
		db.Tables = append(db.Tables, t)
	case "storage":
		t.StorageParameters, op.err = c.ListTableStorageParameters(op.Schema, op.Table)
		db.Tables = append(db.Tables, t)
	case "indexes":
		db.Indexes, op.err = c.ListIndexes(op.Schema, op.Table)
	case "triggers":
		db.Triggers, op.err = c.ListTriggers(op.Schema, op.Table)
	case "parameters":
		db.Parameters, op.err = c.ListParameters()
	case "version":
		op.version, op.err = c.ServerVersion()
	case "exec":
		op.err = c.Exec(op.SQL)
	case "inspect":
		var x *ddl.Database
		if x, op.err = c.InspectDatabase(&pg.InspectOptions{SortChecks: op.Sort[0], SortColumns: op.Sort[1], SortIndexes: op.Sort[2]}); x != nil {
			db = x
		}
	}
	op.db = db
}

func runSession(s *Sim, scAny any) {
	sc := scAny.(*SesScenario)
	s.Net = &Network{s: s}
	srv := &PGServer{s: s, cfg: sc.Cfg}
	srv.catalogs = map[string]*Catalog{}
	state := map[string]*sesDB{}
	become := func(db string, cs *CatSpec) {
		c := *cs
		d := &sesDB{spec: &c}
		d.cat = c.build(s, sc.Perm, sc.Cfg.Version)
		d.want = c.expected(d.cat.order)
		state[db], srv.catalogs[db] = d, d.cat
	}
	for i := range sc.Sessions {
		if c := sc.Sessions[i].Cat; c != nil {
			become(fmt.Sprintf("db%d", i), c)
		} else {
			become(fmt.Sprintf("db%d", i), sc.Cat)
		}
	}
	srv.script = func(db, sql string) *PGScript {
		for i := range sc.Sessions {
			for _, op := range sc.Sessions[i].Ops {
				if op.Kind != "exec" || op.SQL != sql || db != fmt.Sprintf("db%d", i) {
					continue
				}
				if op.Err != "" {
					return &PGScript{Err: "simulated refusal", Code: op.Err}
				}
				if n := op.changed(state[db].spec); n != nil {
					s.probe("database changed")
					become(db, n)
				}
				return nil
			}
		}
		return nil
	}
	s.Net.servers = map[string]*PGServer{fmt.Sprintf("db1:%d", sc.Cfg.Port): srv}
	queries := func(db string) (l []*PGQuery) {
		for _, q := range srv.queries {
			if q.Conn.DB == db {
				l = append(l, q)
			}
		}
		return l
	}
	ops := make([][]*SesOp, len(sc.Sessions))
	refused := make([]error, len(sc.Sessions))
	stuck := make([]bool, len(sc.Sessions))
	open := func(db string) (n int) {
		for _, c := range srv.conns {
			if c.DB == db && !c.l.clientClosed {
				n++
			}
		}
		return n
	}
	lost := func(db string) bool {
		for _, c := range srv.conns {
			if c.DB == db && c.Ready && (c.dead || c.l.dead) {
				return true
			}
		}
		return false
	}
	returned := s.runSUT(func() {
		var wg sync.WaitGroup
		for i := range sc.Sessions {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ses := sc.Sessions[i]
				time.Sleep(time.Duration(ses.StartNS))
				db := fmt.Sprintf("db%d", i)
				c, err := pg.New(&pg.Options{Log: logger.New(sc.Verbose, os.Stdout, nil), Host: "db1", Port: uint16(sc.Cfg.Port), Username: "simuser", Database: db, SSLMode: "disable"})
				if err != nil {
					refused[i] = err
					return
				}
				for j := range ses.Ops {
					op := ses.Ops[j]
					op.from, op.is = len(queries(db)), state[db]
					time.Sleep(time.Duration(op.WaitNS))
					s.ev("ask", db, "%s %s %s %s", op.Kind, op.Schema, op.Table, op.Name)
					op.ask(c)
					op.to, op.lost = len(queries(db)), lost(db)
					s.ev("answer", db, "%s %v", op.Kind, op.err)
					ops[i] = append(ops[i], &op)
				}
				c.Close()
				stuck[i] = open(db) > 0
			}()
		}
		wg.Wait()
	})
	if !returned {
		s.violate("C29", "no end", "a request was never answered: %s%s", s.Fatal, s.Hang)
		return
	}
	for i := range sc.Sessions {
		if refused[i] != nil {
			continue
		}
		if stuck[i] {
			s.violate("C29", "session left open", "the connection of session %d is open after Close", i)
		}
		sc.judge(s, ops[i], queries(fmt.Sprintf("db%d", i)))
	}
	if len(sc.Sessions) > 1 {
		s.probe("several sessions")
	}
}

func (sc *SesScenario) judge(s *Sim, ops []*SesOp, queries []*PGQuery) {
	lost, failed := false, false
	for n, op := range ops {
		cs, want := op.is.spec, op.is.want
		who := strings.TrimSpace(fmt.Sprintf("request %d (%s %s %s %s)", n+1, op.Kind, op.Schema, op.Table, op.Name))
		struck, broke, done := false, false, false
		for _, q := range queries[op.from:op.to] {
			l := q.Conn.l
			cut := l.dead && l.cutAt >= 0 && q.Failed
			struck = struck || q.Failed
			broke = broke || q.Broke || cut && (q.End == 0 || l.cutAt < q.End)
			done = done || q.Done || q.End > 0
		}
		lost = lost || op.lost
		odd := op.oddMay(op.is.cat.odd)
		if op.Kind == "exec" && op.Err != "" && op.err == nil {
			s.violate("C29", "success after an error", "%s succeeded although the server reported an error", who)
		}
		switch {
		case op.err == nil:
			s.probe("answered")
			if failed {
				s.probe("answered after a failure")
			}
			if broke {
				s.violate("C29", "answer after a broken query: "+op.Kind, "%s was answered although the answer of the server broke off", who)
			}
			if !done && (op.Kind == "exec" || lost) {
				s.violate("C29", "answer without a query: "+op.Kind, "%s succeeded although the server did not complete any query", who)
			}
			if sig, detail := op.wrong(sc, cs, want, op.is.cat.odd); sig != "" {
				s.violate("C29", sig, "%s: %s", who, detail)
			}
		case op.err == pg.ErrNotFound:
			s.probe("not found")
			if op.Kind != "function" && op.Kind != "trigger" {
				s.violate("C29", "not found: "+op.Kind, "%s reported %q", who, op.err)
			} else if broke || !done && lost {
				s.violate("C29", "failure taken for absence: "+op.Kind, "%s reported %q although the server did not answer", who, op.err)
			} else if len(op.candidates(cs, want)) > 0 {
				s.violate("C29", "not found although it exists: "+op.Kind, "%s reported %q", who, op.err)
			}
		default:
			s.probe("failed")
			if !struck && !lost && !odd && op.Err == "" && !op.unseen(want) {
				after := ""
				if failed {
					after = " after a failure"
				}
				s.violate("C29", "failed for no reason"+after+": "+op.Kind, "%s failed: %v", who, op.err)
			}
			if op.leaks() {
				s.violate("C29", "answer along with an error: "+op.Kind, "%s reported %q and an answer", who, op.err)
			}
			failed = true
		}
	}
	s.state("session", len(ops), failed, lost)
}

// leaks tells whether there is (part of) an answer.
func (op *SesOp) leaks() bool {
	db := op.db
	n := len(db.Functions) + len(db.Triggers) + len(db.Schemas) + len(db.Sequences) + len(db.Indexes)
	if op.Kind == "tables" || op.Kind == "inspect" {
		n += len(db.Tables)
	}
	return n > 0 || op.version != ""
}

// oddMay tells whether a request may meet what is not understood.
func (op *SesOp) oddMay(odd string) bool {
	switch odd {
	case "":
		return false
	case "check":
		return op.Kind == "checks" || op.Kind == "inspect"
	case "foreign key":
		return op.Kind == "foreign keys" || op.Kind == "inspect"
	case "index":
		return op.Kind == "indexes" || op.Kind == "inspect"
	case "trigger":
		return op.Kind == "triggers" || op.Kind == "trigger" || op.Kind == "inspect"
	}
	return op.Kind == "storage" || op.Kind == "inspect"
}

// unseen tells whether the definitions that the answer is made of may name a
// table in a way that is not understood (because it is not visible).
func (op *SesOp) unseen(want *xDB) bool {
	if op.Kind != "indexes" && op.Kind != "triggers" && op.Kind != "trigger" {
		return false
	}
	for _, t := range want.Tables {
		if t.Schema == op.Schema && t.Name == op.Table {
			return false
		}
	}
	return true
}

// candidates are the objects of which one was asked for.
func (op *SesOp) candidates(cs *CatSpec, want *xDB) (l []string) {
	switch op.Kind {
	case "function": // visible or not
		for i := range cs.Funcs {
			f := &cs.Funcs[i]
			if sn := cs.Schemas[f.Schema].Name; sn == op.Schema && f.Name == op.Name {
				l = append(l, jsonOf(&xFn{sn, f.Name, catRoles[f.Owner], deref(f.Comment), deref(f.Returns), catLangs[f.Lang], f.Def}))
			}
		}
	case "trigger":
		for _, x := range (&xDB{Triggers: want.Triggers}).entries(false)["trigger"] {
			for _, g := range want.Triggers {
				y := *g
				if len(y.Columns) == 0 {
					y.Columns = nil
				}
				if jsonOf(y) == x && g.Schema == op.Schema && g.Table == op.Table && g.Name == op.Name {
					l = append(l, x)
				}
			}
		}
	}
	return l
}

// wrong says what is wrong with an answer.
func (op *SesOp) wrong(sc *SesScenario, cs *CatSpec, want *xDB, odd string) (sig, detail string) {
	if op.Kind == "version" {
		if op.version != sc.Cfg.Version {
			return "wrong version", fmt.Sprintf("%q instead of %q", op.version, sc.Cfg.Version)
		}
		return "", ""
	}
	if op.Kind == "exec" {
		return "", ""
	}
	var text bytes.Buffer
	if err := op.db.Write(&text); err != nil {
		return "unwritable answer: " + op.Kind, err.Error()
	}
	db, err := parseDescription(text.String())
	if err != nil {
		return "unreadable answer: " + op.Kind, fmt.Sprintf("%v: %s", err, brief(text.String()))
	}
	have := db.entries(false)
	var kinds []string
	x := &xDB{}
	one := func() *xTab {
		for _, t := range want.Tables {
			if t.Schema == op.Schema && t.Name == op.Table {
				return t
			}
		}
		return nil
	}
	bare := func() *xTab { return &xTab{Schema: op.Schema, Name: op.Table} }
	switch op.Kind {
	case "function", "trigger":
		c := op.candidates(cs, want)
		got := have[op.Kind]
		if len(got) == 1 && hasStr(c, got[0]) {
			return "", ""
		}
		if len(got) == 1 && len(c) == 0 && (op.Schema == "pg_catalog" || odd == op.Kind) {
			return "", "" // of the server's own
		}
		if len(got) == 1 && odd == "trigger" && op.Kind == "trigger" {
			return "", ""
		}
		return "wrong answer: " + op.Kind, fmt.Sprintf("%s instead of one of %s", clipS(strings.Join(got, " ")), clipS(strings.Join(c, " ")))
	case "inspect":
		y, z := *want, *db
		if sig, detail := cs.diffDB(&y, &z, op.Sort[1], odd); sig != "" {
			return "wrong answer: inspect: " + sig, detail
		}
		return "", ""
	case "functions":
		x.Functions, kinds = want.Functions, []string{"function"}
	case "schemas":
		x.Schemas, kinds = want.Schemas, []string{"schema"}
	case "sequences":
		x.Sequences, kinds = want.Sequences, []string{"sequence"}
	case "parameters":
		x.Parameters, kinds = want.Parameters, []string{"parameters"}
	case "tables":
		for _, t := range want.Tables {
			x.Tables = append(x.Tables, &xTab{Schema: t.Schema, Name: t.Name, Owner: t.Owner, Comment: t.Comment})
		}
		kinds = []string{"table"}
	case "columns", "checks", "foreign keys", "storage":
		t, y := one(), bare()
		if t == nil {
			return "", "" // it may be a view, or not visible
		}
		switch op.Kind {
		case "columns":
			y.Columns, kinds = t.Columns, []string{"columns in order"}
		case "checks":
			y.Checks, kinds = t.Checks, []string{"check"}
		case "foreign keys":
			y.FKs, kinds = t.FKs, []string{"foreign key"}
		default:
			y.Params, kinds = t.Params, []string{"storage parameter"}
		}
		x.Tables = append(x.Tables, y)
	case "indexes":
		if one() == nil {
			return "", ""
		}
		for _, d := range want.Indexes {
			if d.Schema == op.Schema && d.Table == op.Table {
				x.Indexes = append(x.Indexes, d)
			}
		}
		kinds = []string{"index"}
	case "triggers":
		if one() == nil {
			return "", ""
		}
		for _, d := range want.Triggers {
			if d.Schema == op.Schema && d.Table == op.Table {
				x.Triggers = append(x.Triggers, d)
			}
		}
		kinds = []string{"trigger"}
	}
	w := x.entries(false)
	for _, k := range kinds {
		if k == odd && k != "storage parameter" && len(have[k]) >= len(w[k]) {
			continue
		}
		a, b := map[string]int{}, map[string]int{}
		for _, e := range w[k] {
			a[e]++
		}
		for _, e := range have[k] {
			b[e]++
		}
		for _, e := range sortedKeys(a) {
			if b[e] < a[e] {
				return "wrong answer: " + op.Kind, fmt.Sprintf("the database has the %s %s, which the answer lacks: %s", k, clipS(e), clipS(strings.Join(have[k], " ")))
			}
		}
		for _, e := range sortedKeys(b) {
			if b[e] > a[e] {
				return "wrong answer: " + op.Kind, fmt.Sprintf("the answer has the %s %s, which the database does not have", k, clipS(e))
			}
		}
	}
	return "", ""
}

func init() {
	workloads["session"] = &Workload{
		name: "session", gen: genSession, blank: func() any { return &SesScenario{} },
		valid:  func(sc any) bool { return sc.(*SesScenario).valid() },
		stalls: func(sc any) bool { return sc.(*SesScenario).Stalls },
		body:   runSession,
		nontriv: func(s *Sim, prop string) bool {
			return s.Probes["answered"]+s.Probes["not found"] > 0 && (s.Probes["failed"] > 0 || s.Probes["not found"] > 0 || s.Probes["several sessions"] > 0)
		},
	}
	propWork["C29"] = []string{"session"}
}
