//go:build go1.21

package main

// Where passwords go (C30).

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// secret is a password that was configured.
type secret struct {
	value string
	srv   *PGServer // the server it is for (nil: none)
	db    string    // and the database, unless it is for all of them
	env   bool      // pgutil's own environment holds it
}

// hide notes a password; what pgutil writes, says and sends is recorded from now on.
func (s *Sim) hide(value string, srv *PGServer, db string, env bool) {
	core := strings.IndexFunc(value, func(c rune) bool { return !strings.ContainsRune(alnum, c) })
	if core > 0 {
		value = value[:core] // however the rest is quoted
	}
	if strings.Contains(value, "PwQ") { // not those that are like ordinary words
		s.secrets = append(s.secrets, secret{value, srv, db, env})
	}
}

// wrote notes what pgutil itself wrote.
func (s *Sim) wrote(name string, p []byte) {
	if len(s.secrets) == 0 {
		return
	}
	if s.own == nil {
		s.own = map[string][]byte{}
	}
	s.own[name] = append(s.own[name], p...)
}

// tell notes an error that was returned to the caller.
func (s *Sim) tell(err error) {
	if err != nil && len(s.secrets) > 0 {
		s.told = append(s.told, err.Error(), fmt.Sprintf("%+v", err))
	}
}

// hear notes what a server was sent, the answer to its password request apart.
func (c *PGConn) hear(what string, b []byte) {
	if len(c.srv.s.secrets) > 0 {
		c.heard = append(c.heard, what+"\x00"+string(b))
	}
}

// checkSecrets looks for the passwords where they do not belong.
func (s *Sim) checkSecrets() {
	if len(s.secrets) == 0 {
		return
	}
	s.probe("password")
	var names []string
	for n := range s.own {
		names = append(names, n)
	}
	sort.Strings(names)
	var pids []int
	for pid := range s.K.procs {
		pids = append(pids, pid)
	}
	sort.Ints(pids)
	for _, x := range s.secrets {
		for _, n := range names {
			if i := bytes.Index(s.own[n], []byte(x.value)); i >= 0 {
				s.violate("C30", "password written", "a password was written to %s: %q", n, clip(around(s.own[n], i)))
			}
		}
		for _, e := range s.told {
			if strings.Contains(e, x.value) {
				s.violate("C30", "password in an error", "a password is in a returned error: %q", e)
			}
		}
		for _, pid := range pids {
			p := s.K.procs[pid]
			for _, a := range p.Argv {
				if strings.Contains(a, x.value) {
					s.violate("C30", "password on a command line", "a password is an argument of %s: %q", p.Name, a)
				}
			}
			for _, kv := range p.Env {
				if strings.Contains(kv, x.value) && !x.env {
					s.violate("C30", "password in a command's environment", "a password was passed on to %s: %q", p.Name, kv)
				}
			}
		}
	}
	for _, c := range s.conns {
		s.checkHeard(c)
	}
}

func around(b []byte, i int) []byte {
	if i > 30 {
		b = b[i-30:]
	}
	return b
}

// checkHeard judges what one connection's server was told.
func (s *Sim) checkHeard(c *PGConn) {
	for _, x := range s.secrets {
		for _, m := range c.heard {
			if strings.Contains(m, x.value) {
				s.violate("C30", "password in a message", "connection %d to %s was sent a password unasked: %q", c.idx, c.l.addr, clip([]byte(m)))
			}
		}
		if !strings.Contains(c.GotPass, x.value) {
			continue
		}
		if c.srv.cfg.Auth == "md5" {
			s.violate("C30", "password sent in clear", "connection %d to %s was sent a password in clear text although its server asked for a hash", c.idx, c.l.addr)
		}
		fits := false
		for _, y := range s.secrets {
			fits = fits || y.value == x.value && y.srv == c.srv && (y.db == "" || y.db == c.DB)
		}
		if !fits {
			s.violate("C30", "password of another server", "connection %d to database %q of %s was sent a password that is for another", c.idx, c.DB, c.l.addr)
		}
	}
	if c.GotPass != "" {
		s.probe("password sent")
	}
}

// genSecrets gives each call its own password.
func (sc *ConnScenario) genSecrets(r *Rand, by string) {
	for i, c := range sc.all() {
		own := genPassword(r, i)
		w := &c.Way
		switch {
		case w.Pass == simPassword:
			w.Pass = own
		case w.Pass != "":
			w.Pass = "not" + own
		case r.P(3, 4):
			w.Pass, w.PassBy = own, by
		}
		if c.Cfg.Password != "" {
			c.Cfg.Password = own
		} else if r.P(1, 2) {
			c.Cfg.Auth, c.Cfg.Password = pick(r, "password", "md5"), own
		}
		if w.Pass != "" && w.SSL == "" && r.P(1, 2) {
			w.SSL = pick(r, "disable", "allow", "prefer", "require")
		}
	}
}

func genPassword(r *Rand, i int) string {
	return fmt.Sprintf("PwQ%dz%d%s", i, 10+r.Intn(90), pick(r, "", "-x", "_.", "/@", "%d", "é", "$&"))
}

// genSecrets gives the runbook's databases passwords.
func (sc *RBScenario) genSecrets(r *Rand) {
	by := map[string]string{}
	for i, t := range sc.Targets {
		if t.Class != "pg" {
			continue
		}
		srv := sc.Servers[t.Srv]
		if srv.PassBy == nil && srv.Auth == "" {
			srv.Auth, srv.PassBy = pick(r, "", "password", "md5"), map[string]string{}
		}
		if t.SSLMode == "" {
			t.SSLMode = "disable"
		}
		key := fmt.Sprintf("%d %s", t.Srv, t.db())
		if _, ok := by[key]; !ok {
			if by[key] = genPassword(r, i); r.P(1, 5) {
				by[key] = ""
			}
		}
		t.Pass = by[key]
		srv.PassBy[t.db()] = t.Pass
		if r.P(1, 2) {
			t.User = "admin"
		}
	}
	if r.P(1, 4) {
		sc.Env = append(sc.Env, "PGPASSWORD=EnvPwQ"+pick(r, "1", "22"))
		if !sc.secretsValid() {
			sc.Env = sc.Env[:len(sc.Env)-1]
		}
	}
}

// secretsValid tells whether the passwords fit the servers.
func (sc *RBScenario) secretsValid() bool {
	env := sc.envPassword() != ""
	for _, t := range sc.Targets {
		if t.Class != "pg" {
			continue
		}
		srv := sc.Servers[t.Srv]
		if srv.Auth != "" && (srv.PassBy[t.db()] != t.Pass || srv.PassBy == nil) || ((t.Pass != "" || env) && t.SSLMode == "" || env && srv.Auth != "" && t.Pass == "") {
			return false
		}
	}
	return true
}

func (sc *RBScenario) envPassword() string {
	for _, kv := range sc.Env {
		if strings.HasPrefix(kv, "PGPASSWORD=") {
			return kv[len("PGPASSWORD="):]
		}
	}
	return ""
}

// hideAll notes the runbook's passwords.
func (rr *rbRun) hideAll() {
	sc, s := rr.sc, rr.s
	env := sc.envPassword()
	s.hide(env, nil, "", true)
	seen := map[string]bool{}
	for _, t := range sc.Targets {
		if t.Class == "pg" && t.Pass != "" && !seen[t.Pass] {
			seen[t.Pass] = true
			s.hide(t.Pass, rr.servers[t.Srv], t.db(), false)
		}
	}
}

func init() {
	propWork["C30"] = []string{"connect", "inspect", "runbook"}
}
