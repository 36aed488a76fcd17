//go:build go1.21

package main

// The commands ping and inspect against a simulated server (C18 to C23, C16),
// run through the program's own main function.

import (
	"path"
	"sort"
	"strconv"
	"strings"
)

// InsScenario is a database and how it is pinged or inspected, once or several times.
type InsScenario struct {
	Cmd     string   `json:"cmd"`
	Way     ConnWay  `json:"way"`
	Cfg     *PGConf  `json:"cfg"`
	Cat     *CatSpec `json:"cat,omitempty"`
	Perms   []InsRun `json:"perms"`
	Columns bool     `json:"columns,omitempty"`
	Checks  bool     `json:"checks,omitempty"`
	Indexes bool     `json:"indexes,omitempty"`
	Verbose int      `json:"verbose,omitempty"`
	Debug   bool     `json:"debug,omitempty"`
	Short   bool     `json:"short,omitempty"` // short options
	Out     string   `json:"out,omitempty"`
	Prev    bool     `json:"prev,omitempty"`
	PrevTxt string   `json:"prevTxt,omitempty"`
	Place   string   `json:"place,omitempty"`
	Faults  []*Fault `json:"faults,omitempty"` // of the simulated kernel
}

// InsRun is one invocation: how the server's catalog is laid out.
type InsRun struct {
	Perm    uint64 `json:"perm,omitempty"`
	Collate bool   `json:"collate,omitempty"`
}

func genInspect(r *Rand, prop string) any {
	sc := &InsScenario{Cmd: "inspect", Way: genWay(r, prop), Perms: []InsRun{{}}}
	switch prop {
	case "C21", "C16", "C22", "C30":
		sc.Cmd = pick(r, "ping", "ping", "inspect")
	case "":
		sc.Cmd = pick(r, "ping", "inspect")
	}
	if sc.Way.PassBy == "opt" {
		sc.Way.PassBy = "env"
	}
	sc.Cfg = genServer(r, &sc.Way, prop)
	if prop != "C16" && (prop != "C21" && prop != "C30" && prop != "" || r.P(1, 2)) { // let the server be reachable
		w := &sc.Way
		if w.Pass == "wrong" || sc.Cfg.Auth != "" && w.Pass == "" {
			w.Pass, w.PassBy = simPassword, pick(r, "env", "file")
		}
		switch w.mode() {
		case "require":
			sc.Cfg.TLS = pick(r, "good", pick(r, badCerts...), pick(r, badCerts...))
		case "verify-full":
			sc.Cfg.TLS, w.Host = "good", pick(r, "db1", "db3", "localhost", "db.example.com")
			sc.Cfg.Host = w.Host
			if w.HostBy == "default" {
				w.HostBy = "opt"
			}
		}
	}
	sc.Verbose = pick(r, 0, 0, 0, -1, -2, 1, 2)
	sc.Debug = r.P(1, 8)
	sc.Short = r.P(1, 2)
	size := pick(r, 1, 2, 3, 4, 6, 8)
	if prop == "C22" || prop == "C23" || prop == "C21" || prop == "C16" {
		size = pick(r, 0, 1, 1, 2, 3)
	}
	if sc.Cmd == "inspect" {
		sc.Cat = genCat(r, prop, size)
		sc.Columns, sc.Checks, sc.Indexes = r.P(1, 3), r.P(1, 3), r.P(1, 3)
		if r.P(1, 2) || prop == "C23" {
			sc.Out = pick(r, "-", "/out/db.hcl", "db.hcl", "sub/db.hcl")
			if prop == "C23" {
				sc.Out = pick(r, "/out/db.hcl", "db.hcl", "sub/db.hcl")
			}
			sc.Prev = r.P(1, 2)
			sc.PrevTxt = pick(r, "", "precious\n", strings.Repeat("old content line\n", 300))
		}
		sc.Perms = []InsRun{{Collate: sc.Cat.Collate}}
		if prop != "C20" && r.P(1, 2) {
			sc.Perms[0].Perm = 1 + r.U64()%1000
		}
	}
	queries := 6
	tables := 0
	if sc.Cat != nil {
		tables = len(sc.Cat.Tables)
		queries += 6 * tables
	} else {
		queries = 1
	}
	pgFault := func() {
		nth := 1 + r.Intn(queries+1)
		if r.P(1, 3) {
			nth = 1 + r.Intn(7)
		}
		f := PGFault{Where: "query", Nth: nth, Stage: pick(r, "parse", "bind", "rows", "rows", "rows", "commit"), Kind: pick(r, "error", "error", "close", "reset", "badmsg"), Code: pick(r, "57014", "XX000", "42501", "57P01", "58030", "28P01", pick(r, sqlStates...)), Msg: "simulated failure"}
		if f.Stage == "rows" {
			f.At = r.Intn(pick(r, 2, 4, 8))
		}
		switch r.Intn(8) {
		case 0:
			sc.Cfg.CutConn, sc.Cfg.CutAt, sc.Cfg.CutKind = 1+r.Intn(2), int64(r.Intn(pick(r, 1200, 4000, 9000, 30000))), pick(r, "close", "reset")
		case 1:
			f.Stage, f.NS = "stall", int64(pick(r, 1000000, 90000000000, 7200000000000))
			sc.Cfg.Faults = append(sc.Cfg.Faults, f)
		default:
			sc.Cfg.Faults = append(sc.Cfg.Faults, f)
		}
	}
	faultDest := func() {
		d := sc.dest()
		at := int64(pick(r, 0, 1, r.Intn(20), r.Intn(200), r.Intn(4000)))
		e := pick(r, "ENOSPC", "EIO", "EDQUOT", "EFBIG")
		if d != "/dev/stdout" { // which a broken pipe ends the process for
			e = pick(r, e, e, e, "EPIPE", "ENXIO", "ENODEV", "EPERM")
		}
		k := r.Intn(8)
		if d == "/dev/stdout" && (k == 0 || k == 4) {
			k = 1
		}
		switch k {
		case 0:
			sc.Faults = append(sc.Faults, &Fault{Op: "open", Path: d, Err: pick(r, "EACCES", "EROFS", "ENOSPC", "EMFILE", "ENFILE", "ENXIO", "EPERM")})
		case 1, 2, 3:
			sc.Faults = append(sc.Faults, &Fault{Op: "write", Path: d, At: at, Err: e})
		case 4:
			sc.Faults = append(sc.Faults, &Fault{Op: "close", Path: d, Err: pick(r, "EIO", "ENOSPC", "EDQUOT", "EPIPE")})
		case 5:
			sc.Faults = append(sc.Faults, &Fault{Op: "write1", Path: d, Nth: 1 + r.Intn(pick(r, 2, 8)), Err: e})
		case 6:
			sc.Faults = append(sc.Faults, &Fault{Op: "short", Path: d, At: int64(1 + r.Intn(40))})
		case 7:
			sc.Faults = append(sc.Faults, &Fault{Op: "eintr", Path: d})
		}
	}
	switch prop {
	case "C16":
		if r.P(1, 3) {
			sc.Cfg.TLSBy = append(sc.Cfg.TLSBy, pick(r, "-", "good", pick(r, badCerts...), pick(r, badCerts...)))
		}
		if r.P(1, 2) {
			genConnFaults(r, sc.Cfg, 2)
		}
	case "C18":
		pgFault()
		if r.P(1, 4) {
			pgFault()
		}
		if len(sc.Perms) == 1 && r.P(1, 4) {
			sc.Perms = append(sc.Perms, sc.Perms[0])
		}
	case "C19":
		if r.P(1, 6) {
			sc.Cfg.Faults = append(sc.Cfg.Faults, PGFault{Where: "query", Nth: 1 + r.Intn(queries+1), Stage: "stall", Kind: "stall", NS: int64(pick(r, 1000000, 90000000000, 7200000000000))})
		}
	case "C20":
		sc.Columns, sc.Checks, sc.Indexes = r.P(4, 5), r.P(4, 5), r.P(4, 5)
		for i := 0; i < 1+r.Intn(3); i++ {
			sc.Perms = append(sc.Perms, InsRun{1 + r.U64()%1000, r.P(1, 3)})
		}
	case "C21":
		switch r.Intn(4) {
		case 0:
			genConnFaults(r, sc.Cfg, 2)
		case 1:
			pgFault()
		}
		if r.P(1, 4) {
			faultDest()
		}
	case "C22":
		faultDest()
		if r.P(1, 6) {
			faultDest()
		}
		if r.P(1, 8) && sc.dest() != "/dev/stdout" {
			sc.Place = pick(r, "dir", "nodir", "ro")
		}
	case "C23":
		if r.P(1, 3) {
			genConnFaults(r, sc.Cfg, 2)
		} else {
			pgFault()
		}
		if r.P(1, 8) {
			sc.Place = "ro"
		}
	default:
		if r.P(1, 3) {
			pgFault()
		}
		if r.P(1, 3) {
			faultDest()
		}
		if r.P(1, 4) {
			genConnFaults(r, sc.Cfg, 2)
		}
	}
	if sc.Debug && r.P(1, 2) && prop == "C21" {
		sc.Faults = append(sc.Faults, &Fault{Op: "write", Path: "/out/debug.log", At: int64(r.Intn(500)), Err: "ENOSPC"})
	}
	if prop == "C30" {
		c := &ConnScenario{Way: sc.Way, Cfg: sc.Cfg}
		c.genSecrets(r, "env")
		sc.Way = c.Way
	}
	return sc
}

func (sc *InsScenario) dest() string {
	if sc.Out == "" || sc.Out == "-" {
		return "/dev/stdout"
	}
	if !strings.HasPrefix(sc.Out, "/") {
		return path.Join("/work", sc.Out)
	}
	return sc.Out
}

func (sc *InsScenario) valid() bool {
	if sc.Cmd != "ping" && sc.Cmd != "inspect" || sc.Cfg == nil || len(sc.Perms) == 0 {
		return false
	}
	if sc.Cmd == "ping" && (sc.Cat != nil || sc.Out != "" || sc.Columns || sc.Checks || sc.Indexes) || sc.Cmd == "inspect" && !sc.Cat.valid() {
		return false
	}
	if sc.Cfg.Host != sc.Way.Host || !sc.Way.valid(sc.Cfg.Port) || !validCerts(sc.Cfg) || sc.Way.PassBy == "opt" || !sc.Way.validMode() || sc.Cfg.Version == "" {
		return false
	}
	return sc.Place == "" || sc.dest() != "/dev/stdout"
}

func (sc *InsScenario) args(verbose int, out string) []string {
	var a []string
	for i := 0; i < verbose; i++ {
		a = append(a, "-v")
	}
	for i := 0; i < -verbose; i++ {
		a = append(a, "-q")
	}
	if sc.Debug {
		a = append(a, "--debug", "/out/debug.log")
	}
	a = append(a, sc.Cmd)
	w := &sc.Way
	flag := func(by, short, long, v string) {
		if by != "opt" || v == "" {
			return
		}
		if sc.Short && short != "" {
			a = append(a, short, v)
		} else {
			a = append(a, long, v)
		}
	}
	flag(w.HostBy, "-h", "--host", w.Host)
	flag(w.PortBy, "-p", "--port", strconv.Itoa(sc.Cfg.Port))
	flag(w.UserBy, "-U", "--username", "simuser")
	flag(w.DBBy, "-d", "--dbname", "simdb")
	flag("opt", "", "--sslmode", w.SSL)
	if sc.Columns {
		a = append(a, "--sort-columns")
	}
	if sc.Checks {
		a = append(a, "--sort-check-constraints")
	}
	if sc.Indexes {
		a = append(a, "--sort-indexes")
	}
	switch {
	case out == "":
	case sc.Short:
		a = append(a, "-o"+out)
	default:
		a = append(a, "--output="+out)
	}
	return a
}

// insOne is what one invocation did.
type insOne struct {
	srv   *PGServer
	links []*link
	open  []int
	ok    bool // it succeeded
}

// once runs the command against a fresh server.
func (sc *InsScenario) once(s *Sim, rr *repRun, cfg *PGConf, run InsRun, verbose int, out string) *insOne {
	o := &insOne{srv: &PGServer{s: s, cfg: cfg}}
	s.hide(sc.Way.Pass, o.srv, "", sc.Way.PassBy == "env")
	if sc.Cat != nil {
		cat := *sc.Cat
		cat.Collate = run.Collate
		o.srv.catalog = cat.build(s, run.Perm, cfg.Version)
	} else {
		o.srv.catalog = (&CatSpec{Ver: 11}).build(s, run.Perm, cfg.Version)
	}
	first := len(s.Net.links)
	s.Net.servers = map[string]*PGServer{sc.Way.address(cfg.Port): o.srv}
	rr.atEnd = func() {
		for _, l := range s.Net.links[first:] {
			if !l.clientClosed {
				o.open = append(o.open, l.id)
			}
		}
	}
	ended := rr.invoke(sc.args(verbose, out))
	if s.Broken != "" {
		return nil
	}
	if !ended {
		s.violate("C21", "no end", "%s did not end: %s%s", sc.Cmd, s.Fatal, s.Hang)
		return nil
	}
	o.links = s.Net.links[first:]
	o.ok = rr.code == 0
	if len(o.links) > 0 {
		s.probe("connection")
	}
	if len(o.open) > 0 {
		s.violate("C21", "connection left open: "+sc.Cmd, "%s ended with connections %v open", sc.Cmd, o.open)
	}
	checkTLS(s, &sc.Way, o.srv.conns)
	return o
}

// broke tells whether a query's answer was cut off before it was complete.
func (o *insOne) broke() *PGQuery {
	for _, q := range o.srv.queries {
		if q.Broke {
			return q
		}
		l := q.Conn.l
		if l.dead && l.cutAt >= 0 && !q.Conn.tls && q.Failed && (q.End == 0 || l.cutAt < q.End) {
			return q
		}
	}
	return nil
}

// withoutLog removes log messages.
func withoutLog(s string) string {
	var sb strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		log := false
		for _, lv := range []string{"DEBUG\t", "INFO\t", "WARN\t", "ERROR\t"} {
			log = log || strings.HasPrefix(l, lv)
		}
		if !log {
			sb.WriteString(l)
		}
	}
	return sb.String()
}

// describes tells whether text has something of a description in it.
func describes(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		for _, p := range []string{"parameters {", "schema \"", "table \"", "function \"", "sequence \"", "index \"", "trigger \""} {
			if strings.HasPrefix(l, p) {
				return true
			}
		}
	}
	return false
}

func runInspect(s *Sim, scAny any) {
	sc := scAny.(*InsScenario)
	rr := &repRun{s: s}
	k := s.K
	k.exempt = true
	k.mkdirs("/work/sub")
	s.Net = &Network{s: s}
	sc.Way.environment(s, sc.Cfg.Port)
	defer s.checkSecrets()
	dest := sc.dest()
	std := dest == "/dev/stdout"
	admits := sc.Way.admits(sc.Cfg, sc.Cfg.TLS)
	pgFaults := len(sc.Cfg.TLSBy) > 0 || sc.Cfg.CutKind != ""
	for _, f := range sc.Cfg.Faults {
		pgFaults = pgFaults || f.Stage != "stall"
	}
	// the reference: the same command without faults, as quiet as it gets
	ref, refOK := "", false
	if len(sc.Faults) > 0 || sc.Place != "" {
		cfg := *sc.Cfg
		cfg.Faults, cfg.CutKind, cfg.TLSBy = nil, "", nil
		out := ""
		if !std {
			out = "/out/ref.out"
		}
		mark := len(k.streams["/dev/stdout"])
		o := sc.once(s, rr, &cfg, sc.Perms[0], -1, out)
		if o == nil {
			return
		}
		ref, refOK = k.since("/dev/stdout", mark), o.ok
		if !std {
			ref, _ = k.content(out)
		}
	}
	if !std {
		switch sc.Place {
		case "dir":
			k.mkdirs(dest)
		case "nodir":
			if d := path.Dir(dest); d != "/work" {
				delete(k.nodes, d)
			}
		default:
			if sc.Prev {
				mode := uint32(0644)
				if sc.Place == "ro" {
					mode = 0444
				}
				k.file(dest, sc.PrevTxt, mode)
			}
		}
	}
	before, had := k.content(dest)
	k.exempt = false
	for _, f := range sc.Faults {
		c := *f
		k.faults = append(k.faults, &c)
	}
	var sorted []*xDB
	for _, run := range sc.Perms {
		fired := len(k.Fired)
		mark := len(k.streams["/dev/stdout"])
		o := sc.once(s, rr, sc.Cfg, run, sc.Verbose, sc.Out)
		if o == nil {
			return
		}
		destFault, stdFault := false, false
		for _, f := range k.Fired[fired:] {
			s.probe("fault fired")
			if strings.Contains(f, " "+dest+" ") {
				destFault = true
				s.probe("destination fault")
			}
			if strings.Contains(f, " /dev/stdout ") {
				stdFault = true
			}
		}
		stdout := k.since("/dev/stdout", mark)
		got := stdout
		if !std {
			got, _ = k.content(dest)
		}
		broke := o.broke()
		if broke != nil {
			s.probe("answer broken")
		}
		if !o.ok {
			s.probe("failed")
		} else {
			s.probe("succeeded")
		}
		if o.srv.catalog.odd != "" {
			s.probe("unsupported form")
		}
		calm := len(k.Fired) == fired && sc.Place == ""
		if sc.Cmd == "ping" {
			sc.judgePing(s, o, got, calm, stdFault, admits && !pgFaults)
		} else {
			if !o.ok && admits && !pgFaults && calm && o.srv.catalog.odd == "" {
				s.violate("C19", "inspection failed", "inspect failed although nothing is wrong: %s", brief(withoutLog(stdout)))
			}
			if o.ok && broke != nil {
				s.violate("C18", "success after a broken answer", "inspect succeeded although the answer to a query broke off: %s", brief(broke.SQL))
			}
			if !o.ok && !destFault && !stdFault && describes(withoutLog(stdout)) {
				s.violate("C18", "description after failure", "inspect failed and printed %s", brief(withoutLog(stdout)))
			}
			if !std && describes(withoutLog(stdout)) && !stdFault {
				s.violate("C18", "description on standard output", "inspect was to write to %s and printed %s", dest, brief(withoutLog(stdout)))
			}
			if o.ok {
				text := got
				if std {
					text = withoutLog(got)
				}
				if calm || !destFault {
					if db := sc.judgeDescription(s, text, o.srv.catalog, pgFaults); db != nil {
						sorted = append(sorted, db)
					}
				}
			}
		}
		// the destination
		if refOK && o.ok {
			switch {
			case std:
				if !logThen(got, ref, destFault) {
					s.violate("C22", "success with wrong output: "+sc.Cmd, "%s succeeded, but standard output is %s instead of %s preceded by log messages", sc.Cmd, brief(got), brief(ref))
				}
			case got != ref && (destFault || sc.Place != ""):
				s.violate("C22", "success with wrong output: "+sc.Cmd, "%s succeeded, but %s holds %s instead of %s (faults: %v)", sc.Cmd, dest, brief(got), brief(ref), k.Fired)
			}
		}
		if !std && !o.ok && !destFault {
			after, has := k.content(dest)
			if sc.Place == "dir" {
				has, had = false, false
			}
			switch {
			case had && !has:
				s.violate("C23", "output file removed", "inspect failed before writing anything, and %s is gone", dest)
			case !had && has:
				s.violate("C23", "output file created: inspect", "inspect failed because of its input, and created %s (%d bytes)", dest, len(after))
			case had && after != before:
				s.violate("C23", "output file overwritten: inspect", "inspect failed because of its input, and %s changed from %s to %s", dest, brief(before), brief(after))
			}
			s.probe("early failure")
		}
		before, had = k.content(dest)
		s.state("inspect", sc.Cmd, o.ok, len(o.links), len(o.srv.queries), broke != nil)
	}
	sc.judgeOrder(s, sorted)
}

func (sc *InsScenario) judgePing(s *Sim, o *insOne, got string, calm, stdFault, healthy bool) {
	version := sc.Cfg.Version
	if !o.ok {
		if healthy && calm {
			s.violate("C21", "ping failed", "ping failed although the server works: %s", brief(withoutLog(got)))
		}
		if !stdFault && (withoutLog(got) == version+"\n" || strings.HasPrefix(withoutLog(got), version+"\n")) {
			s.violate("C21", "version after failure", "ping failed and printed the version: %s", brief(withoutLog(got)))
		}
		return
	}
	asked := false
	for _, q := range o.srv.queries {
		if strings.Contains(strings.ToUpper(q.SQL), "VERSION()") {
			asked = true
		}
	}
	if !asked {
		s.violate("C21", "success without asking", "ping succeeded, but the server was not asked for its version")
	}
	if !stdFault && withoutLog(got) != version+"\n" {
		s.violate("C21", "wrong version", "ping succeeded and printed %s instead of %s", brief(withoutLog(got)), brief(version+"\n"))
	}
}

func (sc *InsScenario) judgeDescription(s *Sim, text string, cat *Catalog, pgFaults bool) *xDB {
	db, err := parseDescription(text)
	prop := "C19"
	if err != nil {
		s.violate(prop, "unreadable description", "the description does not parse: %v: %s", err, brief(text))
		return nil
	}
	if sig, detail := sc.Cat.diff(db, cat.order, sc.Columns, cat.odd); sig != "" {
		if (pgFaults || cat.odd != "") && strings.HasSuffix(sig, "missing") || cat.odd != "" && strings.HasPrefix(sig, cat.odd) {
			prop, sig = "C18", "incomplete description: "+sig
		}
		s.violate(prop, sig, "%s", detail)
	}
	if len(sc.Cat.Tables) > 0 {
		s.probe("tables described")
	}
	return db
}

// judgeOrder checks the order of what was to be sorted.
func (sc *InsScenario) judgeOrder(s *Sim, dbs []*xDB) {
	var first [3]string
	n := 0
	for i, db := range dbs {
		var cols, checks []any
		for _, t := range db.Tables {
			cols = append(cols, t.Schema, t.Name, t.Columns)
			checks = append(checks, t.Schema, t.Name, t.Checks)
			if sc.Columns {
				n += len(t.Columns)
				if !sort.SliceIsSorted(t.Columns, func(i, j int) bool { return t.Columns[i].Name < t.Columns[j].Name }) {
					s.violate("C20", "columns not sorted", "table %q.%q: %s", t.Schema, t.Name, clipS(jsonOf(t.Columns)))
				}
			}
			if sc.Checks {
				n += len(t.Checks)
				if !sort.SliceIsSorted(t.Checks, func(i, j int) bool { return t.Checks[i].Expression < t.Checks[j].Expression }) {
					s.violate("C20", "checks not sorted", "table %q.%q: %s", t.Schema, t.Name, clipS(jsonOf(t.Checks)))
				}
			}
		}
		if sc.Indexes {
			n += len(db.Indexes)
			x := db.Indexes
			key := func(i int) [3]string { return [3]string{x[i].Schema, x[i].Table, x[i].Name} }
			for j := 1; j < len(x); j++ {
				a, b := key(j-1), key(j)
				if a[0] > b[0] || a[0] == b[0] && (a[1] > b[1] || a[1] == b[1] && a[2] > b[2]) {
					s.violate("C20", "indexes not sorted", "index %q is listed before %q", a, b)
					break
				}
			}
		}
		sec := [3]string{canonTables(cols), canonTables(checks), jsonOf(db.Indexes)}
		if i == 0 {
			first = sec
			continue
		}
		s.probe("orders compared")
		for j, what := range []string{"columns", "checks", "indexes"} {
			if on := [3]bool{sc.Columns, sc.Checks, sc.Indexes}[j]; on && sec[j] != first[j] {
				s.violate("C20", what+" depend on the server's order", "the %s of the same database are listed as %s, then as %s", what, clipS(first[j]), clipS(sec[j]))
			}
		}
	}
	if n > 1 && len(dbs) > 1 {
		s.probe("order mattered")
	}
}

// canonTables puts what is listed by table in an order of its own, as tables need not be sorted.
func canonTables(xs []any) string {
	var l []string
	for i := 0; i+2 < len(xs); i += 3 {
		l = append(l, jsonOf(xs[i:i+3]))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func init() {
	workloads["inspect"] = &Workload{
		name: "inspect", gen: genInspect, warm: 60,
		blank:  func() any { return &InsScenario{} },
		valid:  func(sc any) bool { return sc.(*InsScenario).valid() },
		stalls: func(sc any) bool { return false },
		body:   runInspect,
		nontriv: func(s *Sim, prop string) bool {
			switch prop {
			case "C16":
				return s.Probes["constrained"] > 0
			case "C18":
				return s.Probes["answer broken"]+s.Probes["unsupported form"] > 0
			case "C19":
				return s.Probes["tables described"] > 0
			case "C20":
				return s.Probes["order mattered"] > 0
			case "C21":
				return s.Probes["connection"] > 0
			case "C22":
				return s.Probes["destination fault"] > 0
			case "C23":
				return s.Probes["early failure"] > 0
			case "C30":
				return s.Probes["password"] > 0 && s.Probes["connection"] > 0
			}
			return true
		},
	}
	for _, p := range []string{"C16", "C18", "C19", "C20", "C21", "C22", "C23"} {
		propWork[p] = append(propWork[p], "inspect")
	}
}
