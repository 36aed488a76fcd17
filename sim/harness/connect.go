//go:build go1.21

package main

// Connecting to a database with retries and TLS settings (C15, C16).

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
)

// ConnWay is how the settings of a connection are given.
type ConnWay struct {
	Host    string `json:"host"`
	HostBy  string `json:"hostBy"` // opt or env
	PortBy  string `json:"portBy"` // opt, env or default
	UserBy  string `json:"userBy"`
	DBBy    string `json:"dbBy"`
	SSL     string `json:"ssl,omitempty"`    // the option
	EnvSSL  string `json:"envSSL,omitempty"` // PGSSLMODE
	PassBy  string `json:"passBy,omitempty"` // opt, env or file
	Pass    string `json:"pass,omitempty"`
	EnvPort string `json:"envPort,omitempty"` // an invalid PGPORT
}

// ConnScenario is one call of pg.New, or several.
type ConnScenario struct {
	Way     ConnWay `json:"way"`
	Retries int     `json:"retries"`
	Cfg     *PGConf `json:"cfg"`
	Verbose int     `json:"verbose,omitempty"`
	Use     bool    `json:"use,omitempty"` // query the server's version before closing
	StartNS int64   `json:"startNS,omitempty"`

	More []*ConnScenario `json:"more,omitempty"` // further calls, to other servers
	Seq  bool            `json:"seq,omitempty"`  // one call after the other, else at the same time
}

const simPassword = "s3cret"

// certHosts are the names in the simulated servers' certificate.
var certHosts = map[string]bool{"db1": true, "db2": true, "db3": true, "db4": true, "localhost": true, "db.example.com": true}

func genWay(r *Rand, prop string) ConnWay {
	w := ConnWay{
		Host:   pick(r, "db1", "db1", "db2", "db.example.com", "otherdb", "10.0.0.7", "/run/pg", "localhost", "127.0.0.1", ""),
		HostBy: pick(r, "opt", "env"), PortBy: pick(r, "opt", "env", "default"), UserBy: pick(r, "opt", "env", "default"), DBBy: pick(r, "opt", "env", "default"),
		SSL:    pick(r, "", "", "disable", "allow", "prefer", "require", "verify-full"),
		EnvSSL: pick(r, "", "", "", "disable", "allow", "prefer"),
	}
	if w.Host == "" {
		w.HostBy = "default"
	}
	if r.P(1, 2) {
		w.PassBy, w.Pass = pick(r, "opt", "env", "env", "file"), simPassword
		if r.P(1, 8) {
			w.Pass = "wrong"
		}
	}
	return w
}

// address is where the server is reached.
func (w *ConnWay) address(port int) string {
	if strings.HasPrefix(w.Host, "/") {
		return fmt.Sprintf("%s/.s.PGSQL.%d", w.Host, port)
	}
	return fmt.Sprintf("%s:%d", w.Host, port)
}

func (w *ConnWay) valid(port int) bool {
	if (w.Host == "") != (w.HostBy == "default") || w.PortBy == "default" && port != 5432 || (w.PassBy == "") != (w.Pass == "") {
		return false
	}
	switch w.EnvSSL {
	case "", "disable", "allow", "prefer":
	default:
		return false
	}
	return true
}

// environment sets what the environment contributes.
func (w *ConnWay) environment(s *Sim, port int) {
	if strings.HasPrefix(w.Host, "/") {
		s.K.mkdirs(w.Host)
	}
	set := func(by, name, v string) {
		if by == "env" && v != "" {
			os.Setenv(name, v)
		}
	}
	set(w.HostBy, "PGHOST", w.Host)
	set(w.PortBy, "PGPORT", strconv.Itoa(port))
	set(w.UserBy, "PGUSER", "simuser")
	set(w.DBBy, "PGDATABASE", "simdb")
	set("env", "PGSSLMODE", w.EnvSSL)
	set(w.PassBy, "PGPASSWORD", w.Pass)
	set("env", "PGPORT", w.EnvPort)
	if w.PassBy == "file" {
		s.K.file("/root/.pgpass", "other:1:x:y:nope\n*:*:*:*:"+w.Pass+"\n", 0600)
	}
}

// mode is the sslmode in effect.
func (w *ConnWay) mode() string {
	switch {
	case w.SSL != "":
		return w.SSL
	case w.Pass != "":
		return "verify-full"
	case w.EnvSSL != "":
		return w.EnvSSL
	}
	return "prefer"
}

func (w *ConnWay) validMode() bool {
	switch w.SSL {
	case "", "disable", "allow", "prefer", "require", "verify-full":
		return w.EnvPort == ""
	}
	return false
}

// admits tells whether a server without faults that offers cert lets the client in.
func (w *ConnWay) admits(cfg *PGConf, cert string) bool {
	if cfg.Auth != "" && w.Pass != cfg.Password {
		return false
	}
	switch w.mode() {
	case "require":
		return cert != ""
	case "verify-full":
		return cert == "good" && certHosts[w.Host]
	}
	return true
}

// checkTLS checks what was sent over connections whose settings are w.
func checkTLS(s *Sim, w *ConnWay, conns []*PGConn) {
	byPass := w.SSL == "" && w.Pass != ""
	full := w.SSL == "verify-full" || byPass
	why := "sslmode " + w.SSL
	if byPass {
		why = "a password and no sslmode"
	}
	for _, c := range conns {
		if c.tls {
			s.probe("tls")
		}
		if (full || w.SSL == "require") && len(c.Plain) > 0 {
			s.violate("C16", "plaintext: "+w.SSL, "with %s, %v was sent unencrypted on connection %d", why, c.Plain, c.idx)
		}
		if full && c.tls && c.Startup && !(c.Cert == "good" && certHosts[w.Host]) {
			s.violate("C16", "unverified server", "with %s, the startup message was sent to a server whose certificate (%s) does not verify for %q on connection %d", why, c.Cert, w.Host, c.idx)
		}
		if w.SSL == "disable" && (c.SSLReqs > 0 || c.tls) {
			s.violate("C16", "TLS although disabled", "with %s, TLS was requested on connection %d", why, c.idx)
		}
		if full || w.SSL == "require" || w.SSL == "disable" {
			s.probe("constrained")
		}
	}
}

func genServer(r *Rand, w *ConnWay, prop string) *PGConf {
	c := &PGConf{Host: w.Host, Port: pick(r, 5432, 5433, 6000), Version: pick(r, "PostgreSQL 11.5 on x86_64", "PostgreSQL 11.5 (Debian 11.5-1.pgdg90+1) on x86_64-pc-linux-gnu, compiled by gcc (Debian 6.3.0-18+deb9u1) 6.3.0 20170516, 64-bit", "PostgreSQL\t%d%s ${v}  ", "PostgreSQL 9.6.2", "v", "PostgreSQL 11beta1 (Ünï) \"x\"", strings.Repeat("PostgreSQL long ", 40))}
	if w.PortBy == "default" {
		c.Port = 5432
	}
	c.TLS = pick(r, "", "", "good", "good", "good", pick(r, badCerts...), pick(r, badCerts...), pick(r, badCerts...))
	if r.P(1, 3) {
		c.Auth, c.Password = pick(r, "password", "md5"), simPassword
		if w.Pass == "" && r.P(3, 4) {
			c.Auth, c.Password = "", ""
		}
	}
	if r.P(1, 3) {
		c.LatencyNS = int64(pick(r, 1000, 1000000, 80000000))
	}
	if r.P(1, 4) {
		c.Frag = pick(r, 1, 2, 7, 100)
		c.GapNS = int64(pick(r, 0, 1000, 3000000))
	}
	c.Notices = r.P(1, 4)
	return c
}

// genConnFaults draws what goes wrong on the first n connections.
func genConnFaults(r *Rand, c *PGConf, n int) {
	k := r.Intn(n + 1)
	if r.P(1, 4) {
		k = n
	}
	same := r.P(1, 3)
	var f0 PGFault
	for i := 1; i <= k; i++ {
		f := PGFault{Conn: i}
		switch r.Intn(9) {
		case 0, 1:
			f.Where, f.Kind = "dial", pick(r, "refused", "refused", "refused", "unreachable", "descriptors", "name", "names")
		case 2:
			f.Where, f.Kind, f.NS = "dial", "timeout", int64(pick(r, 1000000, 3000000000, 130000000000))
		case 3, 4:
			f.Where, f.Kind = "ssl", pick(r, "E", "junk", "N", "N", "close", "reset")
		case 5, 6:
			f.Where, f.Kind = "auth", pick(r, "error", "error", "close", "reset", "badmsg")
			f.Code, f.Msg = pick(r, "57P03", "53300", "28000", "3D000", "28P01", pick(r, sqlStates...)), "simulated rejection"
		case 7:
			f.Where, f.Kind, f.Code, f.Msg = "init", pick(r, "error", "close", "reset"), "57P01", "simulated"
		case 8:
			if c.CutKind == "" {
				c.CutConn, c.CutAt, c.CutKind = i, int64(pick(r, 0, 1, r.Intn(10), r.Intn(400), r.Intn(3000))), pick(r, "close", "reset")
				continue
			}
			f.Where, f.Kind = "dial", "refused"
		}
		if same && i > 1 && f0.Where != "" {
			f = f0
			f.Conn = i
		}
		f0 = f
		c.Faults = append(c.Faults, f)
	}
}

func genConnect(r *Rand, prop string) any {
	sc := &ConnScenario{Way: genWay(r, prop), Verbose: pick(r, 0, 1, 2, 3), Use: r.P(1, 2)}
	sc.Retries = pick(r, 0, 0, 1, 2, 3, 5, r.Intn(13), -1, -3)
	if r.P(1, 20) {
		sc.Way.SSL = pick(r, "nonsense", "verify-ca", "Require", "on")
	}
	if r.P(1, 40) {
		sc.Way.EnvPort, sc.Way.PortBy = pick(r, "abc", "-1", "70000"), "opt"
	}
	sc.Cfg = genServer(r, &sc.Way, prop)
	if prop == "C15" && r.P(1, 2) { // let it be reachable once the faults stop
		if sc.Way.Host = pick(r, "db1", "db1", "localhost"); sc.Way.HostBy == "default" {
			sc.Way.HostBy = "opt"
		}
		sc.Cfg.TLS, sc.Cfg.Host = "good", sc.Way.Host
		if sc.Cfg.Auth != "" {
			sc.Way.Pass = simPassword
			if sc.Way.PassBy == "" {
				sc.Way.PassBy = "env"
			}
		}
	}
	n := sc.Retries + 2
	if n < 1 {
		n = 1
	}
	if r.P(1, 3) {
		for i := 0; i < 1+r.Intn(n); i++ {
			sc.Cfg.TLSBy = append(sc.Cfg.TLSBy, pick(r, "-", "good", pick(r, badCerts...), pick(r, badCerts...), pick(r, badCerts...), "good"))
		}
	}
	if r.P(3, 4) {
		genConnFaults(r, sc.Cfg, n)
	}
	if prop != "one" && r.P(1, 4) {
		sc.Seq = r.P(1, 2)
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			m := genConnect(r, "one").(*ConnScenario)
			m.StartNS = int64(pick(r, 0, 0, 1, 50000000, r.Intn(2000000000)))
			sc.More = append(sc.More, m)
		}
		// the environment is the same for all, so it has no part in them
		for i, c := range sc.all() {
			w := &c.Way
			c.Verbose = sc.Verbose
			w.Host, w.HostBy, w.PortBy, w.UserBy, w.DBBy = fmt.Sprintf("db%d", i+1), "opt", "opt", "opt", "opt"
			w.EnvSSL, w.EnvPort = "", ""
			if w.Pass != "" {
				w.PassBy = "opt"
			}
			c.Cfg.Host = w.Host
		}
	}
	if prop == "C30" {
		sc.genSecrets(r, "opt")
	}
	return sc
}

// all lists the calls.
func (sc *ConnScenario) all() []*ConnScenario { return append([]*ConnScenario{sc}, sc.More...) }

func (sc *ConnScenario) valid() bool {
	if len(sc.More) > 3 {
		return false
	}
	hosts := map[string]bool{}
	for i, c := range sc.all() {
		w := &c.Way
		if len(sc.More) > 0 && (hosts[w.Host] || w.HostBy != "opt" || w.PortBy != "opt" || w.UserBy != "opt" || w.DBBy != "opt" || w.EnvSSL != "" || w.EnvPort != "" || w.Pass != "" && w.PassBy != "opt" || c.Verbose != sc.Verbose) {
			return false
		}
		hosts[w.Host] = true
		if i > 0 && (len(c.More) > 0 || c.StartNS < 0) || !c.validOne() {
			return false
		}
	}
	return true
}

func (sc *ConnScenario) validOne() bool {
	if sc.Cfg == nil || sc.Retries > 14 || sc.Cfg.Host != sc.Way.Host || !sc.Way.valid(sc.Cfg.Port) {
		return false
	}
	return validCerts(sc.Cfg)
}

func validCerts(c *PGConf) bool {
	for _, t := range append([]string{c.TLS}, c.TLSBy...) {
		if t != "" && t != "-" && tlsCerts[t] == nil {
			return false
		}
	}
	return c.Port > 0 && c.Port < 65536
}

// attemptFails tells whether connection i meets a fault that defeats it; known is false if it cannot be told.
func (sc *ConnScenario) attemptFails(i int) (fails, known bool) {
	c := sc.Cfg
	cert := c.TLS
	if i <= len(c.TLSBy) {
		cert = strings.TrimPrefix(c.TLSBy[i-1], "-")
	}
	known = true
	for _, f := range c.Faults {
		if f.Conn != 0 && f.Conn != i {
			continue
		}
		switch f.Where {
		case "dial", "init":
			fails = true
		case "auth":
			fails = true
		case "ssl":
			if sc.Way.mode() != "disable" {
				fails = true
			}
		}
	}
	if c.CutKind != "" && c.CutConn == i {
		known = false
	}
	if !sc.Way.admits(c, cert) {
		return true, true
	}
	return fails, known || fails
}

// connCall is a call of pg.New being made.
type connCall struct {
	sc                 *ConnScenario
	srv                *PGServer
	addr               string
	conn               *pg.Conn
	err, verr          error
	version            string
	endT               int64
	openAfter, openEnd []int
	lost               bool // the connection was not open any more when it was to be closed
}

// links are the connections made to the call's server.
func (c *connCall) links(s *Sim) (l []*link) {
	for _, x := range s.Net.links {
		if x.addr == c.addr {
			l = append(l, x)
		}
	}
	return l
}

// open lists those that are open, counting from 1.
func (c *connCall) open(s *Sim) (n []int) {
	for i, l := range c.links(s) {
		if !l.clientClosed {
			n = append(n, i+1)
		}
	}
	return n
}

func (c *connCall) connect(s *Sim) {
	sc := c.sc
	w := &sc.Way
	o := &pg.Options{ConnectRetries: sc.Retries, SSLMode: w.SSL}
	if w.HostBy != "env" {
		o.Host = w.Host
	}
	if w.PortBy == "opt" {
		o.Port = uint16(sc.Cfg.Port)
	}
	if w.UserBy == "opt" {
		o.Username = "simuser"
	}
	if w.DBBy == "opt" {
		o.Database = "simdb"
	}
	if w.PassBy == "opt" {
		o.Password = w.Pass
	}
	o.Log = logger.New(sc.Verbose, os.Stdout, nil)
	c.conn, c.err = pg.New(o)
	c.openAfter = c.open(s)
	c.endT = s.now()
	s.ev("new.return", c.addr, "%v", c.err)
}

func (c *connCall) finish(s *Sim) {
	if c.err != nil || c.conn == nil {
		return
	}
	c.lost = len(c.open(s)) == 0
	if c.sc.Use {
		c.version, c.verr = c.conn.ServerVersion()
	}
	c.conn.Close()
	c.openEnd = c.open(s)
}

func runConnect(s *Sim, scAny any) {
	sc := scAny.(*ConnScenario)
	s.Net = &Network{s: s, servers: map[string]*PGServer{}}
	var calls []*connCall
	for _, m := range sc.all() {
		c := &connCall{sc: m, srv: &PGServer{s: s, cfg: m.Cfg}, addr: m.Way.address(m.Cfg.Port)}
		s.Net.servers[c.addr] = c.srv
		calls = append(calls, c)
		s.hide(m.Way.Pass, c.srv, "", m.Way.PassBy == "env")
	}
	defer s.checkSecrets()
	sc.Way.environment(s, sc.Cfg.Port)
	returned := s.runSUT(func() {
		if len(calls) == 1 || sc.Seq {
			for _, c := range calls {
				if c.sc.StartNS > 0 {
					time.Sleep(time.Duration(c.sc.StartNS))
				}
				c.connect(s)
			}
			for _, c := range calls {
				c.finish(s)
			}
			return
		}
		var wg sync.WaitGroup
		for _, c := range calls {
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(c.sc.StartNS))
				c.connect(s)
				c.finish(s)
			}()
		}
		wg.Wait()
	})
	if !returned {
		s.violate("C15", "no end", "connecting did not end: %s%s", s.Fatal, s.Hang)
		return
	}
	if len(calls) > 1 {
		s.probe("several calls")
	}
	for _, c := range calls {
		s.tell(c.err)
		s.tell(c.verr)
		c.check(s)
	}
}

// check judges what the call did.
func (call *connCall) check(s *Sim) {
	sc, srv, conn, err, verr, version, endT, openAfter, openEnd := call.sc, call.srv, call.conn, call.err, call.verr, call.version, call.endT, call.openAfter, call.openEnd
	w := &sc.Way
	checkTLS(s, w, srv.conns)
	links := call.links(s)
	attempts := sc.Retries + 1
	if attempts < 1 {
		attempts = 1
	}
	mode := w.mode()
	fallback := mode == "allow" || mode == "prefer"
	dials := len(links)
	if dials > 1 {
		s.probe("several attempts")
	}
	if dials > 0 {
		s.probe("attempt")
	}
	limit := attempts
	if fallback {
		limit = 2 * attempts
	}
	if dials > limit {
		s.violate("C15", "too many attempts", "%d connection attempts with %d retries (sslmode %s)", dials, sc.Retries, mode)
	}
	if !w.validMode() {
		if w.EnvPort == "" && err == nil {
			s.violate("C15", "invalid sslmode accepted", "sslmode %q was accepted", w.SSL)
		}
		if err != nil && len(openAfter) > 0 {
			s.violate("C15", "connection left open after failure", "New failed (%v), but connections %v are open", err, openAfter)
		}
		return
	}
	if err != nil {
		s.probe("failed")
		if len(openAfter) > 0 {
			s.violate("C15", "connection left open after failure", "New failed (%v), but connections %v are open", err, openAfter)
		}
		if dials < attempts {
			s.violate("C15", "gave up early", "New failed (%v) after %d of %d attempts", err, dials, attempts)
		}
	} else {
		s.probe("connected")
		switch {
		case conn == nil:
			s.violate("C15", "no connection", "New returned neither an error nor a connection")
		case len(openAfter) == 0:
			s.violate("C15", "no connection", "New succeeded, but no connection is open")
		case len(openAfter) > 1:
			s.violate("C15", "several connections open", "New succeeded and left connections %v open", openAfter)
		case openAfter[0] != dials:
			s.violate("C15", "went on after success", "New kept connection %d of %d", openAfter[0], dials)
		default:
			if c := srv.conns[dials-1]; !c.Ready {
				s.violate("C15", "connection not established", "New succeeded, but connection %d was not established", dials)
			}
		}
		if call.lost && sc.Cfg.CutKind == "" {
			s.violate("C15", "connection closed by another call", "the connection New returned was closed before its owner closed it")
		}
		if len(openEnd) > 0 {
			s.violate("C15", "connection not closed", "connections %v are open after Close", openEnd)
		}
		if sc.Use && verr == nil && version != sc.Cfg.Version {
			s.violate("C21", "wrong version", "ServerVersion returned %q instead of %q", version, sc.Cfg.Version)
		}
	}
	// which attempt should have succeeded
	if !fallback {
		for i := 1; i <= attempts; i++ {
			fails, known := sc.attemptFails(i)
			if !known {
				break
			}
			if fails {
				if err == nil && dials == i {
					s.violate("C15", "success of a failed attempt", "New succeeded with attempt %d, which was bound to fail", i)
				}
				continue
			}
			if i > 1 {
				s.probe("recovered")
			}
			if err != nil {
				s.violate("C15", "failed although an attempt could succeed", "New failed (%v), although attempt %d of %d was answered without a fault", err, i, attempts)
			} else if dials != i {
				s.violate("C15", "did not stop at the first success", "New connected with attempt %d instead of %d", dials, i)
			}
			break
		}
	} else if len(sc.Cfg.Faults) == 0 && sc.Cfg.CutKind == "" && len(sc.Cfg.TLSBy) == 0 && w.admits(sc.Cfg, sc.Cfg.TLS) && err != nil {
		s.violate("C15", "failed although an attempt could succeed", "New failed (%v) although the server works", err)
	}
	// waits between attempts
	last := int64(0)
	for i := 1; i < dials; i++ {
		d := links[i].dialT - links[i-1].clientCloseT
		if fallback && d == 0 {
			continue // the second half of an attempt
		}
		if d <= 0 {
			s.violate("C15", "no wait before a retry", "attempt %d followed attempt %d at once", i+1, i)
		}
		if d < last {
			s.violate("C15", "wait grew shorter", "the wait before attempt %d was %dms after one of %dms", i+1, d/1e6, last/1e6)
		}
		last = d
		s.probe("wait")
	}
	if err != nil && dials > 0 && endT < links[dials-1].dialT {
		s.violate("C15", "error before the last attempt", "New returned before its last attempt")
	}
	s.state("connect", mode, dials, err == nil, sc.Cfg.TLS)
}

func init() {
	workloads["connect"] = &Workload{
		name: "connect", gen: genConnect,
		blank:  func() any { return &ConnScenario{} },
		valid:  func(sc any) bool { return sc.(*ConnScenario).valid() },
		stalls: func(sc any) bool { return false },
		body:   runConnect,
		nontriv: func(s *Sim, prop string) bool {
			switch prop {
			case "C15":
				return s.Probes["several attempts"] > 0
			case "C16":
				return s.Probes["constrained"] > 0
			case "C30":
				return s.Probes["password"] > 0 && s.Probes["attempt"] > 0
			}
			return true
		},
	}
	propWork["C15"] = append(propWork["C15"], "connect")
	propWork["C16"] = append(propWork["C16"], "connect")
}
