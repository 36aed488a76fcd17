//go:build go1.21

package main

import (
	"bufio"
	"crypto/md5"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// PGFault is one planned fault of a simulated server.
type PGFault struct {
	Where string `json:"where"` // dial, ssl, tls, auth, init, query
	Conn  int    `json:"conn,omitempty"`
	Nth   int    `json:"nth,omitempty"`   // query: the nth user query of the server, 0: every
	Match string `json:"match,omitempty"` // query: only SQL containing this
	Kind  string `json:"kind"`
	Stage string `json:"stage,omitempty"` // query: parse, bind, rows, commit
	At    int    `json:"at,omitempty"`    // rows before the fault
	NS    int64  `json:"ns,omitempty"`
	Code  string `json:"code,omitempty"`
	Msg   string `json:"msg,omitempty"`
}

// PGConf configures a simulated server.
type PGConf struct {
	Host      string            `json:"host"`
	Port      int               `json:"port"`
	TLS       string            `json:"tls,omitempty"`   // "" none; good, or one of badCerts
	TLSBy     []string          `json:"tlsBy,omitempty"` // the same for the first connections ("-": none)
	Auth      string            `json:"auth,omitempty"`  // "" trust, password, md5
	Password  string            `json:"password,omitempty"`
	PassBy    map[string]string `json:"passBy,omitempty"` // by database, if they differ
	Version   string            `json:"version,omitempty"`
	LatencyNS int64             `json:"latency,omitempty"`
	Frag      int               `json:"frag,omitempty"`
	GapNS     int64             `json:"gap,omitempty"`
	Notices   bool              `json:"notices,omitempty"`
	CutConn   int               `json:"cutConn,omitempty"`
	CutAt     int64             `json:"cutAt,omitempty"`
	CutKind   string            `json:"cutKind,omitempty"`
	Faults    []PGFault         `json:"faults,omitempty"`
}

// PGScript is the server's reaction to one SQL text.
type PGScript struct {
	NS   int64  `json:"ns,omitempty"`
	Rows int    `json:"rows,omitempty"`
	Err  string `json:"err,omitempty"`  // message of an error response
	Code string `json:"code,omitempty"` // and its SQLSTATE
	Tag  string `json:"tag,omitempty"`

	Parts  int    `json:"parts,omitempty"`  // statements completed before the outcome
	Empty  bool   `json:"empty,omitempty"`  // there was nothing to execute
	Sev    string `json:"sev,omitempty"`    // severity of the error, as the server's language has it; FATAL ends the session
	Big    int    `json:"big,omitempty"`    // length of the rows' values
	Tx     string `json:"tx,omitempty"`     // state of the transaction afterwards: I, T or E
	Hangup int64  `json:"hangup,omitempty"` // ends the session that long after the answer (1: at once)
	HangBy string `json:"hangby,omitempty"` // how: fatal, close, reset
}

// PGQuery is one query a server received.
type PGQuery struct {
	SQL      string
	Conn     *PGConn
	StartSeq int
	EndSeq   int
	StartT   int64
	Done     bool  // completion was reported, completely
	Failed   bool  // an error was reported or the connection broke
	Broke    bool  // a fault struck it before its answer was complete
	End      int64 // where on the connection its answer is complete (0: not sent, or encrypted)
	FaultMsg string
}

// PGServer is a simulated PostgreSQL server.
type PGServer struct {
	s        *Sim
	cfg      *PGConf
	conns    []*PGConn
	queries  []*PGQuery
	script   func(db, sql string) *PGScript
	catalog  *Catalog
	catalogs map[string]*Catalog // by database, if they differ
	nq       int
}

// PGConn is one connection attempt as the server sees it.
type PGConn struct {
	srv      *PGServer
	l        *link
	idx      int // 1-based
	raw      *serverConn
	rw       io.ReadWriter
	rd       *bufio.Reader
	out      []byte
	tls      bool
	Plain    []string // what arrived unencrypted, other than an SSLRequest
	SSLReqs  int
	Startup  bool
	Cert     string // what it offers for TLS
	DB       string
	User     string
	GotPass  string
	heard    []string // what else it was sent, if that is watched
	Ready    bool
	ReadySeq int
	Term     bool // the client said goodbye
	dead     bool
	prep     map[string]*prepared
	portal   *portal
	TLSErr   string
	AuthRej  bool
	inits    int

	tx        string // transaction status
	answering bool
}

type prepared struct {
	sql  string
	plan *Plan
}

type portal struct {
	prep    *prepared
	params  []string
	formats []int16
}

func (srv *PGServer) newConn(l *link) *PGConn {
	c := &PGConn{srv: srv, l: l, idx: len(srv.conns) + 1, prep: map[string]*prepared{}}
	srv.conns = append(srv.conns, c)
	srv.s.conns = append(srv.s.conns, c)
	cfg := srv.cfg
	c.Cert = cfg.TLS
	if c.idx <= len(cfg.TLSBy) {
		c.Cert = strings.TrimPrefix(cfg.TLSBy[c.idx-1], "-")
	}
	l.latency = time.Duration(cfg.LatencyNS)
	l.frag = cfg.Frag
	l.fragGap = time.Duration(cfg.GapNS)
	if cfg.CutConn == c.idx && cfg.CutKind != "" {
		l.cutAt, l.cutKind = cfg.CutAt, cfg.CutKind
	}
	return c
}

func (c *PGConn) latency() time.Duration { return time.Duration(c.srv.cfg.LatencyNS) }

func (c *PGConn) faultAt(where string) *PGFault {
	for i := range c.srv.cfg.Faults {
		f := &c.srv.cfg.Faults[i]
		if f.Where == where && (f.Conn == 0 || f.Conn == c.idx) {
			return f
		}
	}
	return nil
}

func (c *PGConn) who() string {
	if c.DB != "" {
		return c.DB
	}
	return c.l.addr
}

// ---- messages to the client ----

func (c *PGConn) msg(t byte, body ...[]byte) {
	n := 4
	for _, b := range body {
		n += len(b)
	}
	c.out = append(c.out, t)
	c.out = binary.BigEndian.AppendUint32(c.out, uint32(n))
	for _, b := range body {
		c.out = append(c.out, b...)
	}
}

func cstr(s string) []byte { return append([]byte(s), 0) }
func be32(n int) []byte    { return binary.BigEndian.AppendUint32(nil, uint32(n)) }
func be16(n int) []byte    { return binary.BigEndian.AppendUint16(nil, uint16(n)) }

func (c *PGConn) errorMsg(code, text string) { c.errorSev("ERROR", code, text) }

func (c *PGConn) errorSev(sev, code, text string) {
	v := "ERROR"
	if sev == "FATAL" {
		v = sev
	}
	c.msg('E', []byte("S"), cstr(sev), []byte("V"), cstr(v), []byte("C"), cstr(code), []byte("M"), cstr(text), []byte{0})
}

func (c *PGConn) notice() {
	if c.srv.cfg.Notices {
		c.msg('N', []byte("S"), cstr("NOTICE"), []byte("C"), cstr("00000"), []byte("M"), cstr("simulated notice"), []byte{0})
		c.msg('S', cstr("application_name"), cstr("noise"))
	}
}

// flush sends what is queued; it reports false if the connection broke.
func (c *PGConn) flush() bool {
	if len(c.out) == 0 {
		return !c.dead
	}
	b := c.out
	c.out = nil
	if c.dead {
		return false
	}
	if _, err := c.rw.Write(b); err != nil {
		c.dead = true
		return false
	}
	return true
}

func (c *PGConn) ready() {
	if c.tx == "" {
		c.tx = "I"
	}
	c.msg('Z', []byte(c.tx))
}

// breakNow applies a connection-level fault.
func (c *PGConn) breakNow(kind string) {
	c.flush()
	c.dead = true
	c.raw.breakLink(kind)
}

// serve runs the server's side of a connection.
func (c *PGConn) serve(raw *serverConn) {
	c.raw = raw
	c.rw = raw
	defer raw.Close()
	s := c.srv.s
	for {
		var hdr [8]byte
		if _, err := io.ReadFull(c.rw, hdr[:4]); err != nil {
			s.ev("pg.eof", c.who(), "conn %d", c.idx)
			return
		}
		if c.rd == nil && !c.tls && hdr[0] == 22 {
			c.Plain = append(c.Plain, "tls-without-request")
			return
		}
		if _, err := io.ReadFull(c.rw, hdr[4:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(hdr[:4]))
		code := binary.BigEndian.Uint32(hdr[4:])
		if n < 8 || n > 10000 {
			s.ev("pg.badstartup", c.who(), "length %d", n)
			if !c.tls {
				c.Plain = append(c.Plain, "garbage")
			}
			return
		}
		body := make([]byte, n-8)
		if _, err := io.ReadFull(c.rw, body); err != nil {
			return
		}
		switch code {
		case 80877103:
			c.SSLReqs++
			s.ev("pg.sslrequest", c.who(), "conn %d", c.idx)
			if f := c.faultAt("ssl"); f != nil {
				s.fault("ssl " + f.Kind)
				switch f.Kind {
				case "E":
					c.errorMsg("08P01", "unsupported frontend protocol")
					c.flush()
					return
				case "junk":
					c.rw.Write([]byte("X"))
				case "N":
					c.rw.Write([]byte("N"))
				case "Nok":
					// refuses, then behaves as a server whose admission is open to all
					c.rw.Write([]byte("N"))
				default:
					c.breakNow(f.Kind)
					return
				}
				continue
			}
			if c.Cert == "" {
				if _, err := c.rw.Write([]byte("N")); err != nil {
					return
				}
				continue
			}
			if _, err := c.rw.Write([]byte("S")); err != nil {
				return
			}
			tc := tls.Server(raw, serverTLS(c.Cert))
			if err := tc.Handshake(); err != nil {
				c.TLSErr = err.Error()
				s.ev("pg.tlsfail", c.who(), "conn %d: %v", c.idx, err)
				return
			}
			s.ev("pg.tls", c.who(), "conn %d", c.idx)
			c.tls = true
			c.rw = tc
			continue
		case 80877104:
			c.rw.Write([]byte("N"))
			continue
		case 80877102:
			s.ev("pg.cancel", c.who(), "conn %d", c.idx)
			return
		case 196608:
		default:
			s.ev("pg.badstartup", c.who(), "code %d", code)
			if !c.tls {
				c.Plain = append(c.Plain, "garbage")
			}
			return
		}
		c.plain("startup")
		c.Startup = true
		c.hear("startup", body)
		parts := strings.Split(string(body), "\x00")
		for i := 0; i+1 < len(parts); i += 2 {
			switch parts[i] {
			case "user":
				c.User = parts[i+1]
			case "database":
				c.DB = parts[i+1]
			}
		}
		s.ev("pg.startup", c.who(), "conn %d user %s tls %v", c.idx, c.User, c.tls)
		break
	}
	c.rd = bufio.NewReader(c.rw)
	if !c.auth() {
		return
	}
	c.loop()
}

func (c *PGConn) plain(what string) {
	if !c.tls {
		c.Plain = append(c.Plain, what)
	}
}

func (c *PGConn) recv() (byte, []byte, bool) {
	var hdr [5]byte
	if _, err := io.ReadFull(c.rd, hdr[:]); err != nil {
		return 0, nil, false
	}
	n := int(binary.BigEndian.Uint32(hdr[1:]))
	if n < 4 || n > 1<<24 {
		return 0, nil, false
	}
	body := make([]byte, n-4)
	if _, err := io.ReadFull(c.rd, body); err != nil {
		return 0, nil, false
	}
	if hdr[0] != 'p' {
		c.hear(string(hdr[:1]), body)
	}
	// A session that ended while the message was on its way executes nothing.
	return hdr[0], body, !c.dead
}

func (c *PGConn) auth() bool {
	s := c.srv.s
	cfg := c.srv.cfg
	if f := c.faultAt("auth"); f != nil {
		s.fault("auth " + f.Kind)
		switch f.Kind {
		case "error":
			c.AuthRej = true
			c.errorMsg(f.Code, f.Msg)
			c.flush()
			return false
		case "badmsg":
			c.msg('\x07', []byte("nonsense"))
			c.flush()
			return false
		default:
			c.breakNow(f.Kind)
			return false
		}
	}
	if cfg.Auth != "" {
		salt := []byte{1, 2, 3, 4}
		if cfg.Auth == "md5" {
			c.msg('R', be32(5), salt)
		} else {
			c.msg('R', be32(3))
		}
		if !c.flush() {
			return false
		}
		t, body, ok := c.recv()
		if !ok || t != 'p' {
			s.ev("pg.eof", c.who(), "conn %d", c.idx)
			return false
		}
		c.plain("password")
		c.GotPass = strings.TrimRight(string(body), "\x00")
		want := cfg.Password
		if cfg.PassBy != nil {
			want = cfg.PassBy[c.DB]
		}
		if cfg.Auth == "md5" {
			h := md5.Sum([]byte(want + c.User))
			h = md5.Sum(append([]byte(hex.EncodeToString(h[:])), salt...))
			want = "md5" + hex.EncodeToString(h[:])
		}
		if c.GotPass != want {
			c.AuthRej = true
			c.errorMsg("28P01", "password authentication failed for user \""+c.User+"\"")
			c.flush()
			return false
		}
	}
	c.msg('R', be32(0))
	for _, kv := range [][2]string{{"server_version", "11.5"}, {"client_encoding", "UTF8"}, {"standard_conforming_strings", "on"}, {"integer_datetimes", "on"}} {
		c.msg('S', cstr(kv[0]), cstr(kv[1]))
	}
	c.notice()
	c.msg('K', be32(4000+c.idx), be32(77))
	c.ready()
	return c.flush()
}

var pgTypes = []struct {
	oid  int
	name string
}{
	{16, "bool"}, {17, "bytea"}, {18, "char"}, {19, "name"}, {20, "int8"}, {21, "int2"}, {23, "int4"}, {25, "text"}, {26, "oid"},
	{114, "json"}, {700, "float4"}, {701, "float8"}, {1009, "_text"}, {1042, "bpchar"}, {1043, "varchar"}, {1082, "date"},
	{1114, "timestamp"}, {1184, "timestamptz"}, {1700, "numeric"}, {2950, "uuid"}, {705, "unknown"}, {1003, "_name"}, {194, "pg_node_tree"},
}

// initQuery answers the queries pgx issues to learn the server's types.
func initQuery(sql string) *Result {
	switch {
	case strings.HasPrefix(sql, "select t.oid,\n\tcase when"), strings.HasPrefix(sql, "select oid, typname from pg_catalog.pg_type"):
		r := &Result{Cols: []Col{{"oid", tOID}, {"typname", tName}}}
		for _, t := range pgTypes {
			r.Rows = append(r.Rows, []Val{{I: int64(t.oid), T: tOID}, {S: t.name, T: tName}})
		}
		return r
	case strings.HasPrefix(sql, "select t.oid, t.typname, t.typbasetype\n"):
		return &Result{Cols: []Col{{"oid", tOID}, {"typname", tName}, {"typbasetype", tOID}}}
	case strings.HasPrefix(sql, "select t.oid, t.typname\nfrom pg_type t\n"):
		return &Result{Cols: []Col{{"oid", tOID}, {"typname", tName}}}
	}
	return nil
}

func (c *PGConn) loop() {
	s := c.srv.s
	skip := false // after an error, until Sync
	var q *PGQuery
	for !c.dead {
		t, body, ok := c.recv()
		if !ok {
			s.ev("pg.eof", c.who(), "conn %d", c.idx)
			return
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			c.Term = true
			s.ev("pg.terminate", c.who(), "conn %d", c.idx)
			return
		case 'Q':
			sql := strings.TrimRight(string(body), "\x00")
			c.answering = true
			c.plain("sql")
			q := c.begin(sql)
			c.simple(sql, q)
			c.answering = false
		case 'P':
			c.plain("sql")
			name, rest := cutz(body)
			sql, _ := cutz(rest)
			if initQuery(sql) == nil {
				q = c.begin(sql)
			} else {
				q = nil
				if f := c.faultAt("init"); f != nil {
					if !c.initFault(f) {
						return
					}
					skip = true
					continue
				}
			}
			if f := c.queryFault(q, "parse"); f != nil {
				if !c.applyFault(f, q) {
					return
				}
				skip = true
				continue
			}
			p := &prepared{sql: sql}
			if r := initQuery(sql); r != nil {
				p.plan = &Plan{fixed: r}
			} else {
				plan, err := c.plan(sql)
				if err != nil {
					c.sqlError(q, err)
					skip = true
					continue
				}
				p.plan = plan
			}
			c.prep[name] = p
			c.msg('1')
		case 'D':
			name := strings.TrimRight(string(body[1:]), "\x00")
			p := c.prep[name]
			if body[0] == 'P' && c.portal != nil {
				p = c.portal.prep
			}
			if p == nil {
				c.errorMsg("26000", "prepared statement does not exist")
				skip = true
				continue
			}
			if body[0] == 'S' {
				b := be16(p.plan.NParams())
				for _, o := range p.plan.ParamOIDs() {
					b = append(b, be32(o)...)
				}
				c.msg('t', b)
			}
			c.notice()
			if cols := p.plan.Cols(); len(cols) > 0 {
				c.rowDesc(cols, nil)
			} else {
				c.msg('n')
			}
		case 'B':
			_, rest := cutz(body)
			name, rest := cutz(rest)
			p := c.prep[name]
			if p == nil {
				c.errorMsg("26000", "prepared statement does not exist")
				skip = true
				continue
			}
			if f := c.queryFault(q, "bind"); f != nil {
				if !c.applyFault(f, q) {
					return
				}
				skip = true
				continue
			}
			po := &portal{prep: p}
			nf := int(binary.BigEndian.Uint16(rest))
			rest = rest[2+2*nf:]
			np := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			for i := 0; i < np; i++ {
				l := int(int32(binary.BigEndian.Uint32(rest)))
				rest = rest[4:]
				if l < 0 {
					po.params = append(po.params, "")
					continue
				}
				po.params = append(po.params, string(rest[:l]))
				rest = rest[l:]
			}
			nr := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			for i := 0; i < nr; i++ {
				po.formats = append(po.formats, int16(binary.BigEndian.Uint16(rest)))
				rest = rest[2:]
			}
			c.portal = po
			c.msg('2')
		case 'E':
			if c.portal == nil {
				c.errorMsg("34000", "portal does not exist")
				skip = true
				continue
			}
			if q == nil {
				c.inits++
			}
			cont, good := c.execute(c.portal, q)
			if !cont {
				return
			}
			if !good {
				skip = true
			}
		case 'S':
			skip = false
			c.portal = nil
			c.ready()
			ok := c.flush()
			if q == nil && ok && c.inits >= 4 && !c.Ready {
				c.Ready = true
				c.ReadySeq = len(s.Events)
				s.ev("pg.ready", c.who(), "conn %d", c.idx)
			}
			if q != nil && q.Done && !ok {
				q.Done, q.Failed = false, true
			}
			if q != nil && (q.Done || q.Failed) {
				c.end(q)
				q = nil
			}
		case 'C':
			c.msg('3')
		case 'H':
			c.flush()
		default:
			s.ev("pg.badmsg", c.who(), "type %q", t)
			return
		}
	}
}

func cutz(b []byte) (string, []byte) {
	for i, x := range b {
		if x == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

func (c *PGConn) begin(sql string) *PGQuery {
	s := c.srv.s
	c.srv.nq++
	q := &PGQuery{SQL: sql, Conn: c, StartT: s.now()}
	c.srv.queries = append(c.srv.queries, q)
	q.StartSeq = len(s.Events)
	s.ev("pg.query", c.who(), "conn %d %s", c.idx, sql)
	return q
}

func (c *PGConn) end(q *PGQuery) {
	if q.EndSeq != 0 {
		return
	}
	s := c.srv.s
	q.EndSeq = len(s.Events)
	s.ev("pg.done", c.who(), "conn %d ok %v %s", c.idx, q.Done, q.SQL)
}

func (c *PGConn) queryFault(q *PGQuery, stage string) *PGFault {
	if q == nil {
		return nil
	}
	for i := range c.srv.cfg.Faults {
		f := &c.srv.cfg.Faults[i]
		if f.Where == "query" && f.Stage == stage && (f.Conn == 0 || f.Conn == c.idx) && (f.Nth == 0 || f.Nth == c.srv.nq) && strings.Contains(q.SQL, f.Match) {
			return f
		}
	}
	return nil
}

// applyFault carries out a query fault; it reports false if the connection is gone.
func (c *PGConn) applyFault(f *PGFault, q *PGQuery) bool {
	s := c.srv.s
	s.fault("pg " + f.Stage + " " + f.Kind)
	s.ev("fault", c.who(), "pg %s %s", f.Stage, f.Kind)
	q.Failed = true
	q.FaultMsg = f.Msg
	if f.Stage != "commit" {
		q.Broke = true
	}
	switch f.Kind {
	case "error":
		c.errorMsg(f.Code, f.Msg)
		return true
	case "badmsg":
		c.msg('\x07', []byte("nonsense"))
		c.breakNow("close")
	default:
		c.breakNow(f.Kind)
	}
	c.end(q)
	return false
}

func (c *PGConn) initFault(f *PGFault) bool {
	c.srv.s.fault("pg init " + f.Kind)
	if f.Kind == "error" {
		c.errorMsg(f.Code, f.Msg)
		return true
	}
	c.breakNow(f.Kind)
	return false
}

func (c *PGConn) sqlError(q *PGQuery, err error) {
	if q != nil {
		q.Failed = true
		q.FaultMsg = err.Error()
	}
	c.errorMsg("42601", err.Error())
}

func (c *PGConn) plan(sql string) (*Plan, error) {
	u := strings.ToUpper(strings.TrimSpace(sql))
	switch {
	case u == "SELECT VERSION()":
		return &Plan{fixed: &Result{Cols: []Col{{"version", tText}}, Rows: [][]Val{{{S: c.srv.cfg.Version, T: tText}}}}}, nil
	}
	if cat := c.srv.catalogs[c.DB]; cat != nil {
		return cat.plan(sql)
	}
	if c.srv.catalog != nil {
		return c.srv.catalog.plan(sql)
	}
	return &Plan{fixed: &Result{Tag: "OK"}}, nil
}

func (c *PGConn) rowDesc(cols []Col, formats []int16) {
	b := be16(len(cols))
	for i, col := range cols {
		b = append(b, cstr(col.Name)...)
		b = append(b, be32(0)...)
		b = append(b, be16(0)...)
		b = append(b, be32(col.T.oid())...)
		b = append(b, be16(col.T.size())...)
		b = append(b, be32(-1&0xffffffff)...)
		f := int16(0)
		if i < len(formats) {
			f = formats[i]
		}
		b = append(b, be16(int(f))...)
	}
	c.msg('T', b)
}

func (c *PGConn) dataRow(row []Val, formats []int16) {
	b := be16(len(row))
	for i, v := range row {
		f := int16(0)
		if len(formats) == 1 {
			f = formats[0]
		} else if i < len(formats) {
			f = formats[i]
		}
		if v.Null {
			b = append(b, be32(0xffffffff)...)
			continue
		}
		d := v.encode(f == 1)
		b = append(b, be32(len(d))...)
		b = append(b, d...)
	}
	c.msg('D', b)
}

// execute runs a portal. cont is false if the connection is gone; good is false if an error was sent.
func (c *PGConn) execute(po *portal, q *PGQuery) (cont, good bool) {
	res, err := po.prep.plan.Run(po.params)
	if err != nil {
		c.sqlError(q, err)
		return true, false
	}
	if f := c.queryFault(q, "stall"); f != nil {
		c.srv.s.fault("pg stall")
		c.flush()
		time.Sleep(time.Duration(f.NS))
	}
	rf := c.queryFault(q, "rows")
	for i, row := range res.Rows {
		if rf != nil && rf.At == i {
			return c.applyFault(rf, q), false
		}
		c.notice()
		c.dataRow(row, po.formats)
		if i%3 == 2 && !c.flush() {
			if q != nil {
				q.Failed = true
				c.end(q)
			}
			return false, false
		}
	}
	if rf != nil && rf.At >= len(res.Rows) && rf.At >= 0 {
		return c.applyFault(rf, q), false
	}
	tag := res.Tag
	if tag == "" {
		tag = "SELECT " + strconv.Itoa(len(res.Rows))
	}
	c.msg('C', cstr(tag))
	if q != nil && !c.tls {
		q.End = c.l.sent + int64(len(c.out))
	}
	if f := c.queryFault(q, "commit"); f != nil {
		return c.applyFault(f, q), false
	}
	if q != nil {
		q.Done = true
	}
	return true, true
}

// simple answers a simple query, following the script for its text.
func (c *PGConn) simple(sql string, q *PGQuery) {
	fault := func(stage string) bool {
		f := c.queryFault(q, stage)
		if f == nil {
			return false
		}
		if c.applyFault(f, q) {
			c.ready()
			c.flush()
			c.end(q)
		}
		return true
	}
	if fault("parse") {
		return
	}
	sc := &PGScript{Tag: "OK"}
	if c.srv.script != nil {
		if x := c.srv.script(c.DB, sql); x != nil {
			sc = x
		}
	}
	if sc.NS > 0 {
		if f := c.queryFault(q, "mid"); f != nil && f.Kind != "error" {
			time.Sleep(time.Duration(sc.NS / 2))
			c.applyFault(f, q)
			return
		}
		time.Sleep(time.Duration(sc.NS))
	}
	c.notice()
	if sc.Rows > 0 {
		c.rowDesc([]Col{{"x", tText}}, nil)
		for i := 0; i < sc.Rows; i++ {
			if f := c.queryFault(q, "rows"); f != nil && f.At == i {
				fault("rows")
				return
			}
			c.dataRow([]Val{{S: fmt.Sprint("row", i) + strings.Repeat("x", sc.Big), T: tText}}, nil)
		}
	}
	for i := 0; i < sc.Parts; i++ {
		c.msg('C', cstr(pick3(i, "UPDATE 1", "BEGIN", "SET")))
		c.notice()
	}
	if sc.Err != "" {
		q.Failed = true
		q.FaultMsg = sc.Err
		code := sc.Code
		if code == "" {
			code = "P0001"
		}
		sev := sc.Sev
		if sev == "" {
			sev = "ERROR"
		}
		c.errorSev(sev, code, sc.Err)
		if sev == "FATAL" {
			c.breakNow("close")
			c.end(q)
			return
		}
		if c.tx == "T" {
			c.tx = "E"
		}
		c.ready()
		c.flush()
		c.end(q)
		return
	}
	if sc.Tx != "" {
		c.tx = sc.Tx
	}
	tag := sc.Tag
	if tag == "" {
		tag = "SELECT " + strconv.Itoa(sc.Rows)
	}
	if sc.Empty && sc.Parts == 0 && sc.Rows == 0 {
		c.msg('I')
	} else {
		c.msg('C', cstr(tag))
	}
	if fault("commit") {
		return
	}
	c.ready()
	q.Done = true
	if !c.flush() {
		q.Done, q.Failed = false, true
	}
	c.end(q)
	if sc.Hangup > 0 && !c.dead {
		c.hangup(sc)
	}
}

// hangup ends the session some time after an answer.
func (c *PGConn) hangup(sc *PGScript) {
	end := func() {
		if c.dead || c.l.clientClosed {
			return
		}
		c.srv.s.fault("pg idle " + sc.HangBy)
		c.srv.s.ev("fault", c.who(), "pg idle %s", sc.HangBy)
		if sc.HangBy == "fatal" {
			c.errorSev("FATAL", "57P01", "terminating connection due to administrator command")
			c.breakNow("close")
			return
		}
		c.breakNow(sc.HangBy)
	}
	if sc.Hangup == 1 {
		end()
		return
	}
	go func() {
		time.Sleep(time.Duration(sc.Hangup))
		if !c.answering {
			end()
		}
	}()
}

func pick3(i int, l ...string) string { return l[i%len(l)] }

// busy reports whether data is in flight or a query is being answered.
func (c *PGConn) busy() bool {
	if c.l.clientClosed {
		return false
	}
	now := time.Now()
	for _, h := range []*half{&c.l.c2s, &c.l.s2c} {
		for _, g := range h.segs {
			if g.at.After(now) {
				return true
			}
		}
	}
	return false
}

var _ net.Conn = (*serverConn)(nil)
