//go:build go1.21

package main

// A small SQL interpreter over the catalog of a simulated database: enough of
// SELECT for catalog queries. What it does not understand makes the run
// unusable rather than wrong (errUnsupported).

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// unsupported is an error for SQL the simulated server does not understand.
type unsupported struct{ what string }

func (u *unsupported) Error() string { return "simulated server: " + u.what }

// ---- lexer ----

type tok struct {
	k rune // i identifier, q quoted identifier, s string, n number, o operator, p parameter, 0 end
	t string
}

func lexSQL(s string) (ts []tok, err error) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return nil, errors.New("unterminated comment")
			}
			i += j + 2
		case c == '\'' || c == '"':
			var sb strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(s) {
					return nil, errors.New("unterminated quoted string")
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j++
					} else {
						break
					}
				}
				sb.WriteByte(s[j])
			}
			if c == '\'' {
				ts = append(ts, tok{'s', sb.String()})
			} else {
				ts = append(ts, tok{'q', sb.String()})
			}
			i = j + 1
		case c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, tok{'p', s[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, tok{'n', s[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] >= 0x80) {
				j++
			}
			ts = append(ts, tok{'i', strings.ToLower(s[i:j])})
			i = j
		default:
			done := false
			for _, op := range []string{"!~~", "!~*", "::", "<>", "!=", "<=", ">=", "!~", "||", "~~", "~*"} {
				if strings.HasPrefix(s[i:], op) {
					ts = append(ts, tok{'o', op})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				ts = append(ts, tok{'o', string(c)})
				i++
			}
		}
	}
	return append(ts, tok{0, ""}), nil
}

// ---- syntax tree ----

type sqlExpr struct {
	k    string // lit col param call op not in exists sub isnull case
	v    Val
	tab  string
	name string
	n    int
	args []*sqlExpr
	sel  *selectStmt
	not  bool
	typ  Typ
	// resolved column
	lvl, from, idx int
}

type fromItem struct {
	rel    *relation
	alias  string
	sub    *selectStmt // derived table
	fn     *sqlExpr    // function returning rows
	later  bool        // LATERAL
	names  []string    // column aliases
	left   bool        // LEFT JOIN
	on     *sqlExpr
	onUses int
	// rows found through an equality instead of by looking at all of them
	key  int // column, or -1
	with *sqlExpr
}

type orderItem struct {
	e    *sqlExpr
	ord  int // 1-based output column, or 0
	desc bool
	last bool
	set  bool
}

type selectStmt struct {
	cols   []*sqlExpr
	names  []string
	from   []*fromItem
	where  []*sqlExpr // conjuncts
	wuses  []int
	order  []orderItem
	limit  int
	dist   bool
	unnest int // output column that is UNNEST, or -1
	show   string
	aggs   []*sqlExpr // aggregates among the output columns
	group  []*sqlExpr
	having *sqlExpr
	arms   []unionArm
}

type unionArm struct {
	all bool
	sel *selectStmt
}

type sqlParser struct {
	c   *Catalog
	ts  []tok
	p   int
	np  int
	fns map[string]bool
	cte map[string]int // where the query of a WITH clause begins
}

func (p *sqlParser) peek() tok { return p.ts[p.p] }
func (p *sqlParser) fail(f string, a ...any) {
	panic(&unsupported{fmt.Sprintf(f, a...)})
}

func (p *sqlParser) is(t string) bool {
	x := p.ts[p.p]
	return (x.k == 'i' || x.k == 'o') && x.t == t
}

func (p *sqlParser) isAt(i int, t string) bool {
	return p.p+i < len(p.ts) && (p.ts[p.p+i].k == 'i' || p.ts[p.p+i].k == 'o') && p.ts[p.p+i].t == t
}

func (p *sqlParser) eat(t string) bool {
	if p.is(t) {
		p.p++
		return true
	}
	return false
}

func (p *sqlParser) need(t string) {
	if !p.eat(t) {
		panic(fmt.Errorf("syntax error at or near %q, expected %q", p.peek().t, t))
	}
}

func (p *sqlParser) ident() string {
	x := p.peek()
	if x.k != 'i' && x.k != 'q' {
		panic(fmt.Errorf("syntax error at or near %q", x.t))
	}
	p.p++
	return x.t
}

var sqlKeywords = map[string]bool{"from": true, "where": true, "order": true, "join": true, "left": true, "inner": true, "on": true, "and": true, "or": true, "not": true, "in": true, "is": true, "as": true, "limit": true, "group": true, "union": true, "desc": true, "asc": true, "right": true, "full": true, "cross": true, "using": true, "having": true, "nulls": true, "when": true, "then": true, "else": true, "end": true, "collate": true, "like": true, "between": true, "offset": true, "intersect": true, "except": true, "for": true, "natural": true, "select": true, "lateral": true, "with": true}

func (p *sqlParser) selectStmt() *selectStmt {
	if p.eat("with") {
		if p.is("recursive") {
			p.fail("WITH RECURSIVE")
		}
		if p.cte == nil {
			p.cte = map[string]int{}
		}
		for {
			n := p.ident()
			if p.is("(") {
				p.fail("WITH with column names")
			}
			p.need("as")
			if p.eat("not") {
				p.need("materialized")
			} else {
				p.eat("materialized")
			}
			p.need("(")
			p.cte[n] = p.p
			p.selectStmt()
			p.need(")")
			if !p.eat(",") {
				break
			}
		}
	}
	s := p.selectCore()
	for p.eat("union") {
		all := p.eat("all")
		if !all {
			p.eat("distinct")
		}
		a := p.selectCore()
		if len(a.cols) != len(s.cols) {
			panic(errors.New("each UNION query must have the same number of columns"))
		}
		s.arms = append(s.arms, unionArm{all, a})
	}
	p.selectTail(s)
	return s
}

func (p *sqlParser) isSelect() bool { return p.is("select") || p.is("with") }

func (p *sqlParser) selectCore() *selectStmt {
	s := &selectStmt{unnest: -1, limit: -1}
	p.need("select")
	if p.eat("distinct") {
		s.dist = true
	}
	for {
		if p.is("*") {
			p.fail("SELECT *")
		}
		e := p.expr()
		name := ""
		if p.eat("as") {
			name = p.ident()
		} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !sqlKeywords[t.t] {
			name = p.ident()
		}
		if name == "" {
			name = exprName(e)
		}
		if e.k == "call" && e.name == "unnest" {
			if s.unnest >= 0 {
				p.fail("two set-returning functions")
			}
			s.unnest = len(s.cols)
		}
		s.cols = append(s.cols, e)
		s.names = append(s.names, name)
		if !p.eat(",") {
			break
		}
	}
	if p.eat("from") {
		for {
			p.fromItem(s, false)
			for {
				if p.eat("join") || p.is("inner") && p.isAt(1, "join") && p.eat("inner") && p.eat("join") {
					p.fromItem(s, false)
					p.need("on")
					s.from[len(s.from)-1].on = p.expr()
				} else if p.is("left") {
					p.p++
					p.eat("outer")
					p.need("join")
					p.fromItem(s, true)
					p.need("on")
					s.from[len(s.from)-1].on = p.expr()
				} else if p.is("cross") {
					p.p++
					p.need("join")
					p.fromItem(s, false)
				} else {
					break
				}
			}
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("where") {
		s.where = conjuncts(p.expr(), nil)
	}
	if p.eat("group") {
		p.need("by")
		for {
			g := p.expr()
			if g.k == "lit" && g.v.T == tInt4 && g.v.I >= 1 && int(g.v.I) <= len(s.cols) {
				g = s.cols[g.v.I-1]
			} else if g.k == "col" && g.tab == "" {
				for i, n := range s.names {
					if n == g.name && s.cols[i].k != "col" {
						p.fail("GROUP BY an output column's name")
					}
				}
			}
			s.group = append(s.group, g)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("having") {
		s.having = p.expr()
	}
	return s
}

func (p *sqlParser) selectTail(s *selectStmt) {
	for _, w := range []string{"intersect", "except", "window", "for", "offset", "right", "full", "natural", "using"} {
		if p.is(w) {
			p.fail("%s", w)
		}
	}
	if p.eat("order") {
		p.need("by")
		for {
			o := orderItem{e: p.expr()}
			if o.e.k == "lit" && o.e.v.T == tInt4 {
				o.ord = int(o.e.v.I)
				if o.ord < 1 || o.ord > len(s.cols) {
					panic(fmt.Errorf("ORDER BY position %d is not in select list", o.ord))
				}
			} else if o.e.k == "col" && o.e.tab == "" {
				for i, n := range s.names {
					if n == o.e.name {
						o.ord = i + 1
						break
					}
				}
			}
			if p.eat("desc") {
				o.desc = true
			} else {
				p.eat("asc")
			}
			if p.eat("nulls") {
				o.set = true
				if p.eat("last") {
					o.last = true
				} else {
					p.need("first")
				}
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("limit") {
		t := p.peek()
		if t.k != 'n' {
			p.fail("LIMIT")
		}
		p.p++
		s.limit, _ = strconv.Atoi(t.t)
	}
	for _, w := range []string{"group", "having", "union", "intersect", "except", "window", "for", "offset"} {
		if p.is(w) {
			p.fail("%s", w)
		}
	}
}

func conjuncts(e *sqlExpr, to []*sqlExpr) []*sqlExpr {
	if e.k == "op" && e.name == "and" {
		return conjuncts(e.args[1], conjuncts(e.args[0], to))
	}
	return append(to, e)
}

func exprName(e *sqlExpr) string {
	switch e.k {
	case "col", "call", "agg":
		return e.name
	case "exists":
		return "exists"
	case "cast":
		return exprName(e.args[0])
	case "sub":
		return e.sel.names[0]
	}
	return "?column?"
}

func (p *sqlParser) fromItem(s *selectStmt, left bool) {
	f := &fromItem{left: left, later: p.eat("lateral")}
	s.from = append(s.from, f)
	if p.eat("(") {
		if !p.isSelect() {
			p.fail("parentheses in FROM")
		}
		f.sub = p.selectStmt()
		p.need(")")
		p.fromAlias(f)
		return
	}
	n := p.ident()
	if at, ok := p.cte[n]; ok && !p.is(".") && !p.is("(") {
		back := p.p
		p.p = at
		f.sub = p.selectStmt()
		p.p = back
		f.alias = n
		p.fromAlias(f)
		return
	}
	if p.is("(") || n == "pg_catalog" && p.is(".") && p.isAt(2, "(") {
		if p.eat(".") {
			n = p.ident()
		}
		f.fn = p.call(n)
		f.alias = n
		f.rel = &relation{name: n}
		switch n {
		case "unnest":
			f.rel.cols = []Col{{"unnest", tText}}
		case "pg_options_to_table":
			f.rel.cols = []Col{{"option_name", tText}, {"option_value", tText}}
		default:
			p.fail("function %s in FROM", n)
		}
		p.fromAlias(f)
		if n == "unnest" && f.names == nil {
			f.rel.cols[0].Name = f.alias
		}
		f.rename()
		return
	}
	schema := ""
	if p.eat(".") {
		schema, n = n, p.ident()
	}
	rel := p.c.relation(schema, n)
	if rel == nil {
		if schema == "pg_catalog" || schema == "information_schema" || schema == "" {
			p.fail("relation %s.%s", schema, n)
		}
		panic(fmt.Errorf("relation \"%s.%s\" does not exist", schema, n))
	}
	f.rel, f.alias = rel, n
	p.fromAlias(f)
	if f.names != nil {
		p.fail("column aliases of a table")
	}
}

func (p *sqlParser) fromAlias(f *fromItem) {
	if p.is("with") {
		p.fail("WITH ORDINALITY")
	}
	if p.eat("as") {
		f.alias = p.ident()
	} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !sqlKeywords[t.t] {
		f.alias = p.ident()
	} else {
		return
	}
	if p.eat("(") {
		for {
			f.names = append(f.names, p.ident())
			if !p.eat(",") {
				break
			}
		}
		p.need(")")
	}
}

func (f *fromItem) rename() {
	for i, n := range f.names {
		if i < len(f.rel.cols) {
			f.rel.cols[i].Name = n
		}
	}
}

func (p *sqlParser) expr() *sqlExpr { return p.or() }

func (p *sqlParser) or() *sqlExpr {
	e := p.and()
	for p.eat("or") {
		e = &sqlExpr{k: "op", name: "or", args: []*sqlExpr{e, p.and()}}
	}
	return e
}

func (p *sqlParser) and() *sqlExpr {
	e := p.notE()
	for p.eat("and") {
		e = &sqlExpr{k: "op", name: "and", args: []*sqlExpr{e, p.notE()}}
	}
	return e
}

func (p *sqlParser) notE() *sqlExpr {
	if p.eat("not") {
		return &sqlExpr{k: "not", args: []*sqlExpr{p.notE()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *sqlExpr {
	e := p.prim()
	for {
		t := p.peek()
		switch {
		case t.k == 'o' && strings.Contains(" = <> != < > <= >= ~ !~ ~* !~* ~~ !~~ || ", " "+t.t+" "):
			p.p++
			op := t.t
			if p.is("any") || p.is("all") {
				q := p.peek().t
				p.p++
				p.need("(")
				a := p.expr()
				p.need(")")
				e = &sqlExpr{k: "op", name: op + " " + q, args: []*sqlExpr{e, a}}
				continue
			}
			e = &sqlExpr{k: "op", name: op, args: []*sqlExpr{e, p.prim()}}
		case p.is("is"):
			p.p++
			not := p.eat("not")
			switch {
			case p.eat("null"):
				e = &sqlExpr{k: "isnull", not: not, args: []*sqlExpr{e}}
			case p.eat("true"):
				e = &sqlExpr{k: "istrue", not: not, args: []*sqlExpr{e}}
			case p.eat("false"):
				e = &sqlExpr{k: "isfalse", not: not, args: []*sqlExpr{e}}
			case p.eat("distinct"):
				p.need("from")
				e = &sqlExpr{k: "distinct", not: not, args: []*sqlExpr{e, p.prim()}}
			default:
				p.fail("IS %s", p.peek().t)
			}
		case p.is("in"), p.is("not") && p.isAt(1, "in"):
			not := p.eat("not")
			p.need("in")
			p.need("(")
			if p.isSelect() {
				sub := p.selectStmt()
				p.need(")")
				e = &sqlExpr{k: "insub", not: not, args: []*sqlExpr{e}, sel: sub}
				continue
			}
			in := &sqlExpr{k: "in", not: not, args: []*sqlExpr{e}}
			for {
				in.args = append(in.args, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.need(")")
			e = in
		case p.is("like"), p.is("not") && p.isAt(1, "like"):
			not := p.eat("not")
			p.need("like")
			e = &sqlExpr{k: "op", name: map[bool]string{false: "~~", true: "!~~"}[not], args: []*sqlExpr{e, p.prim()}}
		default:
			return e
		}
	}
}

func (p *sqlParser) prim() *sqlExpr {
	e := p.prim0()
	for p.eat("::") {
		e = p.cast(e)
	}
	return e
}

func (p *sqlParser) cast(e *sqlExpr) *sqlExpr {
	n := p.ident()
	if p.eat(".") {
		n = p.ident()
	}
	if p.eat("[") {
		p.need("]")
		n += "[]"
	}
	c := &sqlExpr{k: "cast", name: n, args: []*sqlExpr{e}}
	switch n {
	case "text", "varchar":
		c.typ = tText
	case "name":
		c.typ = tName
	case "oid", "regclass":
		c.typ = tOID
	case "int", "int4", "integer":
		c.typ = tInt4
	case "int8", "bigint":
		c.typ = tInt8
	case "bool", "boolean":
		c.typ = tBool
	default:
		p.fail("cast to %s", n)
	}
	return c
}

func (p *sqlParser) prim0() *sqlExpr {
	t := p.peek()
	switch {
	case t.k == 's':
		p.p++
		return &sqlExpr{k: "lit", v: Val{T: tText, S: t.t}}
	case t.k == 'n':
		p.p++
		n, err := strconv.ParseInt(t.t, 10, 64)
		if err != nil {
			p.fail("number %s", t.t)
		}
		return &sqlExpr{k: "lit", v: Val{T: tInt4, I: n}}
	case t.k == 'p':
		p.p++
		n, _ := strconv.Atoi(t.t)
		if n > p.np {
			p.np = n
		}
		return &sqlExpr{k: "param", n: n}
	case p.is("-"):
		p.p++
		e := p.prim0()
		if e.k != "lit" || e.v.T != tInt4 {
			p.fail("negation")
		}
		e.v.I = -e.v.I
		return e
	case p.is("("):
		p.p++
		if p.isSelect() {
			s := p.selectStmt()
			p.need(")")
			return &sqlExpr{k: "sub", sel: s}
		}
		e := p.expr()
		p.need(")")
		return e
	case p.is("null"):
		p.p++
		return &sqlExpr{k: "lit", v: Val{T: tText, Null: true}}
	case p.is("true"), p.is("false"):
		p.p++
		return &sqlExpr{k: "lit", v: Val{T: tBool, B: t.t == "true"}}
	case p.is("exists"):
		p.p++
		p.need("(")
		s := p.selectStmt()
		p.need(")")
		return &sqlExpr{k: "exists", sel: s}
	case p.is("case"):
		p.p++
		c := &sqlExpr{k: "case"}
		if !p.is("when") {
			p.fail("simple CASE")
		}
		for p.eat("when") {
			a := p.expr()
			p.need("then")
			c.args = append(c.args, a, p.expr())
		}
		if p.eat("else") {
			c.args = append(c.args, p.expr())
		} else {
			c.args = append(c.args, &sqlExpr{k: "lit", v: Val{T: tText, Null: true}})
		}
		p.need("end")
		return c
	case p.is("cast") && p.isAt(1, "("):
		p.p += 2
		e := p.expr()
		p.need("as")
		e = p.cast(e)
		p.need(")")
		return e
	case t.k == 'i' || t.k == 'q':
		a := p.ident()
		if p.is("(") {
			return p.call(a)
		}
		if p.eat(".") {
			b := p.ident()
			if p.is("(") {
				if a != "pg_catalog" {
					p.fail("function %s.%s", a, b)
				}
				return p.call(b)
			}
			if p.eat(".") {
				p.fail("three-part name")
			}
			return &sqlExpr{k: "col", tab: a, name: b}
		}
		return &sqlExpr{k: "col", name: a}
	}
	panic(fmt.Errorf("syntax error at or near %q", t.t))
}

var sqlFuncs = map[string]Typ{
	"pg_get_userbyid": tName, "obj_description": tText, "col_description": tText, "format_type": tText,
	"pg_get_expr": tText, "pg_get_constraintdef": tText, "pg_get_indexdef": tText, "pg_get_triggerdef": tText,
	"pg_get_function_result": tText, "pg_get_function_arguments": tText, "pg_get_function_identity_arguments": tText,
	"pg_table_is_visible": tBool, "pg_function_is_visible": tBool, "unnest": tText, "current_setting": tText,
	"version": tText, "current_database": tName, "lower": tText, "upper": tText, "coalesce": tText, "array_to_string": tText,
	"pg_options_to_table": tText, "quote_ident": tText, "length": tInt4, "starts_with": tBool, "count": tInt8, "bool_or": tBool, "bool_and": tBool, "min": tText, "max": tText,
}

var sqlAggs = map[string]bool{"count": true, "bool_or": true, "bool_and": true, "min": true, "max": true}

func findAggs(e *sqlExpr, to []*sqlExpr) []*sqlExpr {
	if e.k == "agg" {
		return append(to, e)
	}
	for _, a := range e.args {
		to = findAggs(a, to)
	}
	return to
}

func (p *sqlParser) call(n string) *sqlExpr {
	ty, ok := sqlFuncs[n]
	if !ok {
		p.fail("function %s", n)
	}
	e := &sqlExpr{k: "call", name: n, typ: ty}
	p.need("(")
	if sqlAggs[n] {
		e.k = "agg"
		if n == "count" && p.eat("*") {
			p.need(")")
			return e
		}
		if p.is("distinct") {
			p.fail("%s(DISTINCT)", n)
		}
	}
	if !p.is(")") {
		for {
			e.args = append(e.args, p.expr())
			if !p.eat(",") {
				break
			}
		}
	}
	p.need(")")
	return e
}

// ---- relations ----

type relation struct {
	oid  int64
	name string
	cols []Col
	rows [][]Val
	user bool

	index map[int]map[indexKey][][]Val
}

func (r *relation) col(n string) int {
	for i, c := range r.cols {
		if c.Name == n {
			return i
		}
	}
	return -1
}

// ---- resolution ----

type scope struct {
	sel    *selectStmt
	parent *scope
}

// resolve binds column names; it returns the highest FROM item of the innermost select that e uses, plus one.
func (p *sqlParser) resolve(e *sqlExpr, sc *scope) int {
	max := 0
	up := func(n int) {
		if n > max {
			max = n
		}
	}
	switch e.k {
	case "col":
		lvl := 0
		for s := sc; s != nil; s = s.parent {
			found := -1
			for i, f := range s.sel.from {
				if e.tab != "" && f.alias != e.tab {
					continue
				}
				if j := f.rel.col(e.name); j >= 0 {
					if found >= 0 {
						panic(fmt.Errorf("column reference %q is ambiguous", e.name))
					}
					found = i
					e.lvl, e.from, e.idx, e.typ = lvl, i, j, f.rel.cols[j].T
				} else if e.tab != "" {
					p.fail("column %s.%s", e.tab, e.name)
				}
			}
			if found >= 0 {
				if lvl == 0 {
					return found + 1
				}
				return 0
			}
			lvl++
		}
		for s := sc; s != nil; s = s.parent {
			for _, f := range s.sel.from {
				if f.rel.user {
					panic(fmt.Errorf("column %q does not exist", e.name))
				}
			}
		}
		p.fail("column %s.%s", e.tab, e.name)
	case "sub", "exists", "insub":
		p.resolveSel(e.sel, sc)
		// anything of this select may be used inside
		up(len(sc.sel.from))
		if e.k == "sub" {
			if len(e.sel.cols) != 1 {
				panic(errors.New("subquery must return only one column"))
			}
			e.typ = e.sel.cols[0].typ
		} else {
			e.typ = tBool
		}
	case "lit":
		e.typ = e.v.T
	case "param":
		e.typ = tName
	case "in", "not", "isnull", "istrue", "isfalse", "distinct":
		e.typ = tBool
	case "op":
		e.typ = tBool
		if e.name == "||" {
			e.typ = tText
		}
	}
	for _, a := range e.args {
		up(p.resolve(a, sc))
	}
	switch e.k {
	case "case":
		e.typ = e.args[1].typ
	case "call":
		if e.name == "coalesce" && len(e.args) > 0 {
			e.typ = e.args[0].typ
		}
	case "agg":
		if (e.name == "min" || e.name == "max") && len(e.args) == 1 {
			e.typ = e.args[0].typ
		}
		if len(e.args) > 1 || len(e.args) == 0 && e.name != "count" {
			p.fail("%s with %d arguments", e.name, len(e.args))
		}
	}
	return max
}

func (p *sqlParser) resolveSel(s *selectStmt, parent *scope) {
	sc := &scope{s, parent}
	for _, f := range s.from {
		if f.sub != nil {
			f.rel = &relation{}
		}
	}
	for _, f := range s.from {
		switch {
		case f.sub != nil:
			if f.later {
				p.resolveSel(f.sub, sc)
			} else {
				p.resolveSel(f.sub, parent)
			}
			rel := &relation{name: f.alias}
			for i, e := range f.sub.cols {
				rel.cols = append(rel.cols, Col{f.sub.names[i], e.typ})
			}
			f.rel = rel
			f.rename()
		case f.fn != nil:
			for _, a := range f.fn.args {
				p.resolve(a, sc)
			}
			if len(f.fn.args) != 1 {
				p.fail("%s with %d arguments", f.fn.name, len(f.fn.args))
			}
		}
	}
	for _, a := range s.arms {
		p.resolveSel(a.sel, parent)
	}
	for i, f := range s.from {
		if f.on != nil {
			if n := p.resolve(f.on, sc); n > i+1 {
				if f.on.k != "sub" {
					p.fail("ON clause refers to a later relation")
				}
			}
		}
	}
	for _, w := range s.where {
		s.wuses = append(s.wuses, p.resolve(w, sc))
	}
	for _, c := range s.cols {
		p.resolve(c, sc)
		s.aggs = findAggs(c, s.aggs)
	}
	for _, g := range s.group {
		p.resolve(g, sc)
	}
	if s.having != nil {
		p.resolve(s.having, sc)
		s.aggs = findAggs(s.having, s.aggs)
	}
	for i := range s.order {
		if s.order[i].ord == 0 {
			if len(s.arms) > 0 {
				p.fail("ORDER BY of a UNION by an expression")
			}
			p.resolve(s.order[i].e, sc)
			s.aggs = findAggs(s.order[i].e, s.aggs)
		}
	}
	if s.grouped() && s.unnest >= 0 {
		p.fail("aggregates with UNNEST")
	}
	for _, w := range s.where {
		if len(findAggs(w, nil)) > 0 {
			panic(errors.New("aggregate functions are not allowed in WHERE"))
		}
	}
	for i, f := range s.from {
		f.key = -1
		if f.sub != nil || f.fn != nil {
			continue
		}
		var cs []*sqlExpr
		if f.on != nil {
			cs = conjuncts(f.on, nil)
		}
		if !f.left {
			for w, e := range s.where {
				if s.wuses[w] == i+1 {
					cs = append(cs, e)
				}
			}
		}
		for _, e := range cs {
			if e.k != "op" || e.name != "=" {
				continue
			}
			for x := 0; x < 2 && f.key < 0; x++ {
				a, b := e.args[x], e.args[1-x]
				same := isNum(a.typ) && isNum(b.typ) || isStr(a.typ) && isStr(b.typ)
				if same && a.k == "col" && a.lvl == 0 && a.from == i && usesBefore(b, i) {
					f.key, f.with = a.idx, b
				}
			}
		}
	}
}

func (s *selectStmt) grouped() bool { return len(s.aggs) > 0 || len(s.group) > 0 || s.having != nil }

// usesBefore tells whether e is a parameter, a literal, or a column of an outer select or an earlier FROM item.
func usesBefore(e *sqlExpr, i int) bool {
	switch e.k {
	case "col":
		return e.lvl > 0 || e.from < i
	case "param", "lit":
		return true
	}
	return false
}

// lookup returns the rows of r that can equal v in column col, in order.
func (r *relation) lookup(col int, v Val) [][]Val {
	if v.Null {
		return nil
	}
	if len(r.rows) < 4 {
		return r.rows
	}
	if r.index == nil {
		r.index = map[int]map[indexKey][][]Val{}
	}
	m := r.index[col]
	if m == nil {
		m = map[indexKey][][]Val{}
		for _, row := range r.rows {
			if x := row[col]; !x.Null {
				k := indexKey{x.I, x.S}
				m[k] = append(m[k], row)
			}
		}
		r.index[col] = m
	}
	return m[indexKey{v.I, v.S}]
}

type indexKey struct {
	i int64
	s string
}

func (c *Catalog) plan(sql string) (pl *Plan, err error) {
	if p, ok := c.plans[sql]; ok {
		return p, nil
	}
	ts, err := lexSQL(sql)
	if err != nil {
		return nil, err
	}
	for len(ts) > 1 && ts[len(ts)-2].t == ";" {
		ts = append(ts[:len(ts)-2], tok{0, ""})
	}
	p := &sqlParser{c: c, ts: ts}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case *unsupported:
			if c.s.Broken == "" {
				c.s.Broken = "the simulated server does not understand: " + e.what + " in " + sql
			}
			pl, err = nil, e
		case error:
			if _, ok := e.(interface{ RuntimeError() }); ok {
				panic(e)
			}
			pl, err = nil, e
		default:
			panic(e)
		}
	}()
	if p.eat("show") {
		n := p.ident()
		if p.peek().k != 0 {
			p.fail("SHOW")
		}
		v, ok := c.settings[n]
		if !ok {
			p.fail("setting %s", n)
		}
		name := n
		if n == "timezone" {
			name = "TimeZone"
		}
		return &Plan{fixed: &Result{Cols: []Col{{name, tText}}, Rows: [][]Val{{{S: v, T: tText}}}, Tag: "SHOW"}}, nil
	}
	if !p.isSelect() {
		p.fail("%s", p.peek().t)
	}
	s := p.selectStmt()
	if p.peek().k != 0 {
		panic(fmt.Errorf("syntax error at or near %q", p.peek().t))
	}
	p.resolveSel(s, nil)
	pl = &Plan{sel: s, cat: c, np: p.np}
	for i, e := range s.cols {
		pl.cols = append(pl.cols, Col{s.names[i], e.typ})
	}
	if c.plans == nil {
		c.plans = map[string]*Plan{}
	}
	c.plans[sql] = pl
	return pl, nil
}

// ---- execution ----

type env struct {
	rows   [][]Val // current row of each FROM item; nil: null-extended
	parent *env
	params []string
	aggs   map[*sqlExpr]Val
}

func (c *Catalog) run(p *Plan, params []string) (r *Result, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case *unsupported:
			if c.s.Broken == "" {
				c.s.Broken = "the simulated server does not understand: " + e.what
			}
			err = e
		case error:
			if _, ok := e.(interface{ RuntimeError() }); ok {
				panic(e)
			}
			err = e
		default:
			panic(e)
		}
	}()
	return &Result{Cols: p.cols, Rows: c.exec(p.sel, nil, params, false)}, nil
}

type keyed struct {
	row  []Val
	keys []Val
}

func (c *Catalog) exec(s *selectStmt, parent *env, params []string, one bool) [][]Val {
	var out []keyed
	e := &env{parent: parent, params: params, rows: make([][]Val, len(s.from))}
	var rec func(i int) bool
	groups := map[string]*grouping{}
	var inOrder []*grouping
	subs := map[int][][]Val{}
	test := func(i int) bool {
		for w, u := range s.wuses {
			if u == i || i == 0 && u == 0 {
				if !truth(c.eval(s.where[w], e)) {
					return false
				}
			}
		}
		return true
	}
	rec = func(i int) bool {
		if i > 0 || len(s.from) == 0 {
			if !test(i) {
				return true
			}
		}
		if i == len(s.from) && s.grouped() {
			var key []Val
			for _, g := range s.group {
				key = append(key, c.eval(g, e))
			}
			k := ""
			if len(key) > 0 {
				k = jsonOf(key)
			}
			gr := groups[k]
			if gr == nil {
				gr = s.newGroup()
				gr.rows = append([][]Val(nil), e.rows...)
				groups[k] = gr
				inOrder = append(inOrder, gr)
			}
			aggs := gr.aggs
			for n, a := range s.aggs {
				g := &aggs[n]
				v := Val{}
				if len(a.args) > 0 {
					v = c.eval(a.args[0], e)
				}
				if v.Null {
					continue
				}
				switch {
				case a.name == "count":
					g.I++
				case g.Null:
					*g = v
				case a.name == "bool_or":
					g.B = g.B || v.B
				case a.name == "bool_and":
					g.B = g.B && v.B
				case a.name == "min" && c.compare(v, *g, true) < 0 || a.name == "max" && c.compare(v, *g, true) > 0:
					*g = v
				}
			}
			return true
		}
		if i == len(s.from) {
			k := keyed{}
			for _, col := range s.cols {
				if col.k == "call" && col.name == "unnest" {
					k.row = append(k.row, Val{})
					continue
				}
				k.row = append(k.row, c.eval(col, e))
			}
			rows := []keyed{k}
			if s.unnest >= 0 {
				rows = nil
				a := c.eval(s.cols[s.unnest].args[0], e)
				for _, x := range a.Arr {
					row := append([]Val(nil), k.row...)
					row[s.unnest] = Val{T: tText, S: x}
					rows = append(rows, keyed{row: row})
				}
			}
			for _, k := range rows {
				for _, o := range s.order {
					if o.ord > 0 {
						v := k.row[o.ord-1]
						k.keys = append(k.keys, v)
					} else {
						k.keys = append(k.keys, c.eval(o.e, e))
					}
				}
				out = append(out, k)
			}
			return !(one && len(out) > 0 && s.limit < 0)
		}
		f := s.from[i]
		matched := false
		rows := f.rel.rows
		switch {
		case f.sub != nil && f.later:
			rows = c.exec(f.sub, e, params, false)
		case f.sub != nil:
			var ok bool
			if rows, ok = subs[i]; !ok {
				rows = c.exec(f.sub, parent, params, false)
				subs[i] = rows
			}
		case f.fn != nil:
			rows = nil
			for _, x := range c.eval(f.fn.args[0], e).Arr {
				if f.fn.name == "unnest" {
					rows = append(rows, []Val{textVal(x)})
					continue
				}
				k, v, ok := strings.Cut(x, "=")
				rows = append(rows, []Val{textVal(k), {T: tText, S: v, Null: !ok}})
			}
		}
		if f.key >= 0 {
			rows = f.rel.lookup(f.key, c.eval(f.with, e))
		}
		for _, row := range rows {
			e.rows[i] = row
			if f.on != nil && !truth(c.eval(f.on, e)) {
				continue
			}
			matched = true
			if !rec(i + 1) {
				return false
			}
		}
		if f.left && !matched {
			e.rows[i] = nil
			if !rec(i + 1) {
				return false
			}
		}
		e.rows[i] = nil
		return true
	}
	ok := true
	if len(s.from) > 0 { // constant conditions
		for w, u := range s.wuses {
			if u == 0 && !truth(c.eval(s.where[w], e)) {
				ok = false
			}
		}
	}
	if ok {
		rec(0)
	}
	if s.grouped() {
		if len(inOrder) == 0 && len(s.group) == 0 {
			gr := s.newGroup()
			gr.rows = make([][]Val, len(s.from))
			inOrder = append(inOrder, gr)
		}
		for _, gr := range inOrder {
			e.rows = gr.rows
			e.aggs = map[*sqlExpr]Val{}
			for n, a := range s.aggs {
				e.aggs[a] = gr.aggs[n]
			}
			if s.having != nil && !truth(c.eval(s.having, e)) {
				continue
			}
			k := keyed{}
			for _, col := range s.cols {
				k.row = append(k.row, c.eval(col, e))
			}
			for _, o := range s.order {
				if o.ord > 0 {
					k.keys = append(k.keys, k.row[o.ord-1])
				} else {
					k.keys = append(k.keys, c.eval(o.e, e))
				}
			}
			out = append(out, k)
		}
	}
	for _, a := range s.arms {
		for _, row := range c.exec(a.sel, parent, params, false) {
			k := keyed{row: row}
			for _, o := range s.order {
				k.keys = append(k.keys, row[o.ord-1])
			}
			out = append(out, k)
		}
		if !a.all {
			seen := map[string]bool{}
			var uniq []keyed
			for _, k := range out {
				if x := jsonOf(k.row); !seen[x] {
					seen[x] = true
					uniq = append(uniq, k)
				}
			}
			out = uniq
		}
	}
	if len(s.order) > 0 {
		sort.SliceStable(out, func(i, j int) bool {
			for n, o := range s.order {
				a, b := out[i].keys[n], out[j].keys[n]
				if a.Null || b.Null {
					if a.Null == b.Null {
						continue
					}
					last := !o.desc
					if o.set {
						last = o.last
					}
					return b.Null == last
				}
				x := c.compare(a, b, true)
				if x == 0 {
					continue
				}
				return (x < 0) != o.desc
			}
			return false
		})
	}
	var rows [][]Val
	seen := map[string]bool{}
	for _, k := range out {
		if s.dist {
			key := jsonOf(k.row)
			if seen[key] {
				continue
			}
			seen[key] = true
		}
		if s.limit >= 0 && len(rows) >= s.limit {
			break
		}
		rows = append(rows, k.row)
	}
	return rows
}

type grouping struct {
	rows [][]Val
	aggs []Val
}

func (s *selectStmt) newGroup() *grouping {
	g := &grouping{}
	for _, a := range s.aggs {
		g.aggs = append(g.aggs, Val{T: a.typ, Null: a.name != "count"})
	}
	return g
}

func truth(v Val) bool { return !v.Null && v.B }

func isNum(t Typ) bool { return t == tOID || t == tInt8 || t == tInt4 || t == tInt2 }

func isStr(t Typ) bool { return t == tText || t == tName || t == tChar }

// compare orders two values; sorting tells whether text collates.
func (c *Catalog) compare(a, b Val, sorting bool) int {
	switch {
	case a.Ints != nil || b.Ints != nil:
		for i := 0; i < len(a.Ints) && i < len(b.Ints); i++ {
			if a.Ints[i] != b.Ints[i] {
				return cmpInt(a.Ints[i], b.Ints[i])
			}
		}
		return cmpInt(int64(len(a.Ints)), int64(len(b.Ints)))
	case isNum(a.T) && isNum(b.T):
		return cmpInt(a.I, b.I)
	case isNum(a.T) && isStr(b.T):
		n, err := strconv.ParseInt(b.S, 10, 64)
		if err != nil {
			panic(fmt.Errorf("invalid input syntax for type integer: %q", b.S))
		}
		return cmpInt(a.I, n)
	case isStr(a.T) && isNum(b.T):
		return -c.compare(b, a, sorting)
	case a.T == tBool && b.T == tBool:
		return cmpInt(bi(a.B), bi(b.B))
	case a.T == tBool && isStr(b.T):
		return cmpInt(bi(a.B), bi(b.S == "t" || b.S == "true"))
	case isStr(a.T) && isStr(b.T):
		if sorting && a.T == tText && c.collate {
			if x := strings.Compare(strings.ToLower(a.S), strings.ToLower(b.S)); x != 0 {
				return x
			}
			return -strings.Compare(a.S, b.S)
		}
		return strings.Compare(a.S, b.S)
	}
	panic(&unsupported{fmt.Sprintf("comparison of types %d and %d", a.T, b.T)})
}

func bi(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func cmpInt(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var sqlRegexps = map[string]*regexp.Regexp{}

func sqlRegexp(s string, fold bool) *regexp.Regexp {
	if fold {
		s = "(?i)" + s
	}
	r, ok := sqlRegexps[s]
	if !ok {
		var err error
		r, err = regexp.Compile(s)
		if err != nil {
			panic(&unsupported{"regular expression " + s})
		}
		sqlRegexps[s] = r
	}
	return r
}

func boolVal(b bool) Val { return Val{T: tBool, B: b} }

func textVal(s string) Val { return Val{T: tText, S: s} }

var nullText = Val{T: tText, Null: true}

func (c *Catalog) eval(e *sqlExpr, en *env) Val {
	switch e.k {
	case "lit":
		return e.v
	case "param":
		return Val{T: tName, S: en.params[e.n-1]}
	case "col":
		x := en
		for i := 0; i < e.lvl; i++ {
			x = x.parent
		}
		if x.rows[e.from] == nil {
			return Val{T: e.typ, Null: true}
		}
		return x.rows[e.from][e.idx]
	case "not":
		v := c.eval(e.args[0], en)
		v.B = !v.B
		return v
	case "isnull":
		v := c.eval(e.args[0], en)
		return boolVal(v.Null != e.not)
	case "istrue":
		v := c.eval(e.args[0], en)
		return boolVal(truth(v) != e.not)
	case "isfalse":
		v := c.eval(e.args[0], en)
		return boolVal((!v.Null && !v.B) != e.not)
	case "distinct":
		a, b := c.eval(e.args[0], en), c.eval(e.args[1], en)
		same := a.Null && b.Null
		if !a.Null && !b.Null {
			same = c.compare(a, b, false) == 0
		}
		return boolVal(same == e.not)
	case "exists":
		return boolVal(len(c.exec(e.sel, en, en.params, true)) > 0)
	case "sub":
		rows := c.exec(e.sel, en, en.params, false)
		switch len(rows) {
		case 0:
			return Val{T: e.typ, Null: true}
		case 1:
			return rows[0][0]
		}
		panic(errors.New("more than one row returned by a subquery used as an expression"))
	case "insub":
		v := c.eval(e.args[0], en)
		if v.Null {
			return Val{T: tBool, Null: true}
		}
		for _, r := range c.exec(e.sel, en, en.params, false) {
			if !r[0].Null && c.compare(v, r[0], false) == 0 {
				return boolVal(!e.not)
			}
		}
		return boolVal(e.not)
	case "in":
		v := c.eval(e.args[0], en)
		if v.Null {
			return Val{T: tBool, Null: true}
		}
		null := false
		for _, a := range e.args[1:] {
			w := c.eval(a, en)
			if w.Null {
				null = true
			} else if c.compare(v, w, false) == 0 {
				return boolVal(!e.not)
			}
		}
		if null {
			return Val{T: tBool, Null: true}
		}
		return boolVal(e.not)
	case "case":
		for i := 0; i+1 < len(e.args); i += 2 {
			if truth(c.eval(e.args[i], en)) {
				return c.eval(e.args[i+1], en)
			}
		}
		return c.eval(e.args[len(e.args)-1], en)
	case "cast":
		v := c.eval(e.args[0], en)
		if v.Null {
			return Val{T: e.typ, Null: true}
		}
		switch {
		case e.name == "regclass" && isStr(v.T):
			n := strings.TrimPrefix(v.S, "pg_catalog.")
			if r := c.relation("pg_catalog", n); r != nil {
				return Val{T: tOID, I: r.oid}
			}
			panic(&unsupported{"regclass " + v.S})
		case isNum(e.typ) && isNum(v.T), e.typ == v.T:
			v.T = e.typ
		case isStr(e.typ) && isStr(v.T):
			v.T = e.typ
		case isNum(e.typ) && isStr(v.T):
			n, err := strconv.ParseInt(v.S, 10, 64)
			if err != nil {
				panic(fmt.Errorf("invalid input syntax for type integer: %q", v.S))
			}
			return Val{T: e.typ, I: n}
		case isStr(e.typ) && isNum(v.T):
			return Val{T: e.typ, S: strconv.FormatInt(v.I, 10)}
		case isStr(e.typ) && v.T == tBool:
			return Val{T: e.typ, S: strconv.FormatBool(v.B)}
		default:
			panic(&unsupported{"cast to " + e.name})
		}
		return v
	case "op":
		return c.op(e, en)
	case "call":
		return c.call(e, en)
	case "agg":
		if v, ok := en.aggs[e]; ok {
			return v
		}
		panic(&unsupported{"aggregate " + e.name + " here"})
	}
	panic(&unsupported{"expression " + e.k})
}

func (c *Catalog) op(e *sqlExpr, en *env) Val {
	a := c.eval(e.args[0], en)
	switch e.name {
	case "and":
		if !a.Null && !a.B {
			return a
		}
		b := c.eval(e.args[1], en)
		if !b.Null && !b.B {
			return b
		}
		return Val{T: tBool, B: true, Null: a.Null || b.Null}
	case "or":
		if truth(a) {
			return a
		}
		b := c.eval(e.args[1], en)
		if truth(b) {
			return b
		}
		return Val{T: tBool, Null: a.Null || b.Null}
	}
	b := c.eval(e.args[1], en)
	if a.Null || b.Null {
		return Val{T: e.typ, Null: true}
	}
	switch e.name {
	case "=":
		return boolVal(c.compare(a, b, false) == 0)
	case "<>", "!=":
		return boolVal(c.compare(a, b, false) != 0)
	case "<":
		return boolVal(c.compare(a, b, true) < 0)
	case ">":
		return boolVal(c.compare(a, b, true) > 0)
	case "<=":
		return boolVal(c.compare(a, b, true) <= 0)
	case ">=":
		return boolVal(c.compare(a, b, true) >= 0)
	case "= any":
		for _, i := range b.Ints {
			if isNum(a.T) && a.I == i {
				return boolVal(true)
			}
		}
		for _, x := range b.Arr {
			if isStr(a.T) && a.S == x {
				return boolVal(true)
			}
		}
		return boolVal(false)
	case "~", "!~", "~*", "!~*":
		m := sqlRegexp(b.S, strings.HasSuffix(e.name, "*")).MatchString(a.S)
		return boolVal(m != (e.name[0] == '!'))
	case "~~", "!~~":
		var sb strings.Builder
		sb.WriteString("(?s)^")
		for i := 0; i < len(b.S); i++ {
			switch ch := b.S[i]; ch {
			case '%':
				sb.WriteString(".*")
			case '_':
				sb.WriteString(".")
			case '\\':
				if i+1 < len(b.S) {
					i++
				}
				sb.WriteString(regexp.QuoteMeta(b.S[i : i+1]))
			default:
				sb.WriteString(regexp.QuoteMeta(string(ch)))
			}
		}
		sb.WriteString("$")
		m := sqlRegexp(sb.String(), false).MatchString(a.S)
		return boolVal(m != (e.name[0] == '!'))
	case "||":
		return textVal(string(a.encode(false)) + string(b.encode(false)))
	}
	panic(&unsupported{"operator " + e.name})
}

func (c *Catalog) call(e *sqlExpr, en *env) Val {
	var as []Val
	for _, a := range e.args {
		v := c.eval(a, en)
		if e.name == "coalesce" {
			if !v.Null {
				return v
			}
			continue
		}
		as = append(as, v)
	}
	if e.name == "coalesce" {
		return Val{T: e.typ, Null: true}
	}
	argn := func(min, max int) {
		if len(as) < min || len(as) > max {
			panic(&unsupported{fmt.Sprintf("%s with %d arguments", e.name, len(as))})
		}
	}
	text := func(s string, ok bool) Val {
		if !ok {
			return nullText
		}
		return textVal(s)
	}
	if len(as) > 0 && as[0].Null {
		return Val{T: e.typ, Null: true}
	}
	pretty := func(i int) bool { return len(as) > i && as[i].B }
	switch e.name {
	case "pg_get_userbyid":
		argn(1, 1)
		n, ok := c.roles[as[0].I]
		if !ok {
			n = fmt.Sprintf("unknown (OID=%d)", as[0].I)
		}
		return Val{T: tName, S: n}
	case "obj_description":
		argn(1, 2)
		if len(as) == 1 {
			for _, k := range []string{"pg_class", "pg_namespace", "pg_proc"} {
				if s, ok := c.descr[descKey{k, as[0].I, 0}]; ok {
					return textVal(s)
				}
			}
			return nullText
		}
		s, ok := c.descr[descKey{as[1].S, as[0].I, 0}]
		return text(s, ok)
	case "col_description":
		argn(2, 2)
		s, ok := c.descr[descKey{"pg_class", as[0].I, as[1].I}]
		return text(s, ok)
	case "format_type":
		argn(2, 2)
		mod := as[1].I
		if as[1].Null {
			mod = -1
		}
		return textVal(c.formatType(as[0].I, mod))
	case "pg_get_expr":
		argn(2, 3)
		return textVal(as[0].S)
	case "pg_get_constraintdef":
		argn(1, 2)
		d, ok := c.condef[as[0].I]
		return text(d[bi(pretty(1))], ok)
	case "pg_get_indexdef":
		argn(1, 3)
		if len(as) == 2 || len(as) == 3 && as[1].I != 0 {
			panic(&unsupported{"pg_get_indexdef of one column"})
		}
		d, ok := c.idxdef[as[0].I]
		return text(d[bi(pretty(2))], ok)
	case "pg_get_triggerdef":
		argn(1, 2)
		d, ok := c.trgdef[as[0].I]
		return text(d[bi(pretty(1))], ok)
	case "pg_get_function_result":
		argn(1, 1)
		d, ok := c.fnres[as[0].I]
		return text(d, ok)
	case "pg_get_function_arguments", "pg_get_function_identity_arguments":
		argn(1, 1)
		d, ok := c.fnargs[as[0].I]
		return text(d, ok)
	case "pg_table_is_visible", "pg_function_is_visible":
		argn(1, 1)
		return boolVal(c.visible[as[0].I])
	case "current_setting":
		argn(1, 2)
		v, ok := c.settings[strings.ToLower(as[0].S)]
		if !ok {
			panic(&unsupported{"setting " + as[0].S})
		}
		return textVal(v)
	case "version":
		return textVal(c.version)
	case "current_database":
		return Val{T: tName, S: c.dbname}
	case "lower":
		argn(1, 1)
		return textVal(strings.ToLower(as[0].S))
	case "upper":
		argn(1, 1)
		return textVal(strings.ToUpper(as[0].S))
	case "array_to_string":
		argn(2, 2)
		return textVal(strings.Join(as[0].Arr, as[1].S))
	case "length":
		argn(1, 1)
		return Val{T: tInt4, I: int64(len([]rune(as[0].S)))}
	case "starts_with":
		argn(2, 2)
		return boolVal(strings.HasPrefix(as[0].S, as[1].S))
	}
	panic(&unsupported{"function " + e.name})
}
