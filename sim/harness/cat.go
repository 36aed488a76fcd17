//go:build go1.21

package main

// The content of a simulated database: a description drawn at random, the
// system catalog a server would keep for it, and what an inspection must report.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
)

// CatSpec describes a database.
type CatSpec struct {
	Ver        int       `json:"ver"` // 9: no pg_sequence; 11
	Collate    bool      `json:"collate,omitempty"`
	SearchPath []int     `json:"searchPath"` // schemas
	Path       string    `json:"path"`
	Timezone   string    `json:"timezone"`
	Schemas    []CSchema `json:"schemas"`
	Tables     []CTable  `json:"tables,omitempty"`
	Funcs      []CFunc   `json:"funcs,omitempty"`
	Seqs       []CSeq    `json:"seqs,omitempty"`
	Noise      int       `json:"noise,omitempty"` // system objects, views, internal triggers, dropped columns
	Odd        string    `json:"odd,omitempty"`   // check, foreign key, index, trigger, storage parameter: one has a form that is not supported
	OddAt      int       `json:"oddAt,omitempty"`
}

// CSchema is a namespace.
type CSchema struct {
	Name    string  `json:"name"`
	Owner   int     `json:"owner,omitempty"`
	Comment *string `json:"comment,omitempty"`
}

// CTable is a table.
type CTable struct {
	Schema  int      `json:"schema"`
	Name    string   `json:"name"`
	Owner   int      `json:"owner,omitempty"`
	Comment *string  `json:"comment,omitempty"`
	Kind    string   `json:"kind,omitempty"` // r p, or v m f for other relations
	Cols    []CCol   `json:"cols,omitempty"`
	Checks  []CCheck `json:"checks,omitempty"`
	FKs     []CFK    `json:"fks,omitempty"`
	Idx     []CIdx   `json:"idx,omitempty"`
	Trg     []CTrg   `json:"trg,omitempty"`
	Params  []string `json:"params,omitempty"`
}

// CCol is a column.
type CCol struct {
	Name    string  `json:"name"`
	Type    int     `json:"type"`
	NotNull bool    `json:"notNull,omitempty"`
	Default *string `json:"default,omitempty"`
	Comment *string `json:"comment,omitempty"`
}

// CCheck is a check constraint.
type CCheck struct {
	Name string `json:"name"`
	Expr string `json:"expr"`
}

// CFK is a foreign key.
type CFK struct {
	Name  string `json:"name"`
	Cols  []int  `json:"cols"`
	Ref   int    `json:"ref"` // table
	RCols []int  `json:"rcols"`
	Match string `json:"match,omitempty"`
	Del   string `json:"del,omitempty"`
	Upd   string `json:"upd,omitempty"`
	Defer int    `json:"defer,omitempty"` // 1: DEFERRABLE INITIALLY DEFERRED
}

// CIdx is an index.
type CIdx struct {
	Name    string `json:"name"`
	Primary bool   `json:"primary,omitempty"`
	Unique  bool   `json:"unique,omitempty"`
	Using   string `json:"using"`
	Keys    []CKey `json:"keys"`
	Where   string `json:"where,omitempty"`
}

// CKey is a column or an expression of an index.
type CKey struct {
	Col  int    `json:"col"`
	Expr string `json:"expr,omitempty"`
	Op   string `json:"op,omitempty"`
	Desc bool   `json:"desc,omitempty"`
}

// CTrg is a trigger.
type CTrg struct {
	Name   string `json:"name"`
	When   string `json:"when"`
	Events string `json:"events"` // letters of I D U T
	Cols   []int  `json:"cols,omitempty"`
	Cons   int    `json:"cons,omitempty"` // constraint trigger: 1 immediate, 2 deferred
	Row    bool   `json:"row,omitempty"`
	Func   string `json:"func"`
}

// CFunc is a function.
type CFunc struct {
	Schema  int     `json:"schema"`
	Name    string  `json:"name"`
	Args    string  `json:"args,omitempty"`
	Owner   int     `json:"owner,omitempty"`
	Comment *string `json:"comment,omitempty"`
	Returns *string `json:"returns,omitempty"`
	Lang    int     `json:"lang,omitempty"`
	Def     string  `json:"def"`
}

// CSeq is a sequence.
type CSeq struct {
	Schema  int     `json:"schema"`
	Name    string  `json:"name"`
	Owner   int     `json:"owner,omitempty"`
	Comment *string `json:"comment,omitempty"`
	Type    int     `json:"type,omitempty"`
	Start   int64   `json:"start"`
	Min     int64   `json:"min"`
	Max     int64   `json:"max"`
	Inc     int64   `json:"inc"`
	Cache   int64   `json:"cache"`
	Cycle   bool    `json:"cycle,omitempty"`
	Table   int     `json:"table"` // -1: owned by no column
	Col     int     `json:"col,omitempty"`
	Ident   bool    `json:"ident,omitempty"` // an identity column's
}

var catRoles = []string{"postgres", "app owner", "o'brien", "ünï"}

var catTypes = []struct {
	oid, mod int64
	text     string
}{
	{23, -1, "integer"}, {20, -1, "bigint"}, {25, -1, "text"}, {16, -1, "boolean"}, {1184, -1, "timestamp with time zone"},
	{1184, 3, "timestamp(3) with time zone"}, {1043, 54, "character varying(50)"}, {1043, -1, "character varying"},
	{1700, 10<<16 | 2 + 4, "numeric(10,2)"}, {1007, -1, "integer[]"}, {114, -1, "json"}, {21, -1, "smallint"}, {70001, -1, "mood"}, {70002, -1, "other.mood"},
	{1042, 14, "character(10)"}, {18, -1, "\"char\""}, {701, -1, "double precision"}, {1186, -1, "interval"}, {1083, -1, "time without time zone"}, {1114, 6, "timestamp(6) without time zone"},
	{2950, -1, "uuid"}, {3802, -1, "jsonb"}, {17, -1, "bytea"}, {1560, 3, "bit(3)"}, {1015, 24, "character varying(20)[]"}, {1009, -1, "text[]"}, {1700, -1, "numeric"}, {1082, -1, "date"},
	{869, -1, "inet"}, {3910, -1, "tstzrange"}, {70003, -1, "\"My Type\""}, {70004, -1, "\"Odd\".\"T ${y}\""}, {70005, -1, "mood[]"}, {19, -1, "name"},
}

var seqTypes = []struct {
	oid  int64
	text string
}{{20, "bigint"}, {23, "integer"}, {21, "smallint"}}

var catLangs = []string{"plpgsql", "sql", "plv8", "internal", "c", "plpython3u", "My Lang"}

func strp(s string) *string { return &s }

var (
	simpleNames = []string{"a", "b", "c", "id", "key", "value", "created", "data", "x1", "a_b", "zz", "order_id", "ab", "aa", "a1", "u", "w", "m", "k2", "long_column_name_that_goes_on_and_on"}
	// names that other orders than the bytewise one treat differently
	famSimple  = []string{"c", "c1", "c2", "c9", "c10", "c11", "c100", "c01", "c_1", "c_10", "c1a", "c1_a", "ca", "c_a"}
	famWild    = []string{"C", "C1", "C2", "C10", "C_1", "cA", "Ca", "c 1", "c-1", "c.1", " c1", "c1 ", "ć", "cä", "cz", "c'1", "c\"1", "_c1", "c~"}
	famExprs   = []string{"c > 1", "c > 9", "c > 10", "c > 100", "C > 1", "C > 10", "(c > 1)", "c >= 1", "c1 > 1", "c10 > 1", "c9 > 1", "c > 01", "c > 1.5", "c > 1 AND d", "c>1", "ć > 1", "\"c\" > 1"}
	wildNames  = []string{"A", "Z", "Camel", "with space", "quo\"te", "ünïcode", "${x}", "%{y}", "back\\slash", "tab\there", "日本", "1st", "_u", "a.b", "a-b", "%d", "line\nbreak", "'", "$$", "null", "true", "a b", "é", "#", "//", "a$b"}
	wildTexts  = []string{"", "text", "a ${b} c", "%{if}", "q\"uote", "back\\slash", "two\nlines", "tab\t", "ünï 日本", " lead", "trail ", "$${", "\\n", "%s %d", "'single'", "<<EOT\nx\nEOT\n", "\r\n", "end\n", "a\x7fb", "\u2028"}
	wildDefs   = []string{"\nBEGIN\n  NEW.modified = now();\n  RETURN NEW;\nEND;\n", "SELECT 1", "select '${x}'", "begin\n  raise notice '%', \"x\";\nend", "", "return \"a\\n\";", "SELECT $1 + $2", "-- ünï\nSELECT 'é';\n",
		"begin\r\n  null;\r\nend;\r\n", "\tSELECT 1;   \n\n\n", "  SELECT 1  ", "EOT\nEOF\nSQL\n}\n", "SELECT '\\n\\t'", "$$ nested $body$ x $body$ $$", "%%{if true}%{ endif }%{~ else ~}", "/* c */ SELECT 1 /* d */;;", "-- only", "BEGIN;\n\n\n\n\tEND", "\ufeffSELECT 1", "select \"A\".b from \"A\"", "ﬁ \U0001F600"}
	checkExprs = []string{"a > 0", "value IS NOT NULL", "length(key) > 3", "key::text ~ '^\\d{4}-\\d{4}(:[a-z]+)?$'::text", "(a + b) < 10", "A", "a = ANY (ARRAY[1, 2, 3])", "CASE\n    WHEN a THEN b > 0\n    ELSE c\nEND", "a <> ''::text", "x ~~ '%${y}%'::text", "B > 1", "b >= 0", "a >= 0 AND a <= 10", "NOT a", "_z", "é = 1", "f((a))", "a = 'x\"y'::text", "a = '  b'::text", "a > 0 "}
	storParams = []string{"fillfactor=", "parallel_workers=", "autovacuum_enabled=", "autovacuum_vacuum_threshold=", "autovacuum_vacuum_scale_factor=", "autovacuum_analyze_threshold=", "autovacuum_analyze_scale_factor=", "autovacuum_vacuum_cost_limit=", "autovacuum_vacuum_cost_delay=", "autovacuum_freeze_min_age=", "autovacuum_freeze_max_age=", "autovacuum_freeze_table_age=", "autovacuum_multixact_freeze_min_age=", "autovacuum_multixact_freeze_max_age=", "autovacuum_multixact_freeze_table_age=", "log_autovacuum_min_duration=", "user_catalog_table="}
)

func (r *Rand) maybe(p int, xs []string) *string {
	if r.Intn(100) >= p {
		return nil
	}
	s := xs[r.Intn(len(xs))]
	return &s
}

// genCat draws a database. size is how big it may get.
func genCat(r *Rand, prop string, size int) *CatSpec {
	cs := &CatSpec{Ver: pick(r, 9, 11, 11), Collate: r.P(1, 3), Timezone: pick(r, "UTC", "Europe/Vienna", "<+03>-03"), Noise: r.Intn(4)}
	names := []string{"public", "app", "other", "Wild ${s}", "pgx", "a_schema", "pg", "Public", "information_schema2"}
	if r.P(1, 2) {
		shuffle(r, names)
	}
	if (prop == "C18" || prop == "C21" || prop == "C23") && r.P(1, 12) {
		cs.Odd, cs.OddAt = pick(r, "check", "foreign key", "index", "trigger", "storage parameter"), r.Intn(3)
	}
	ns := 1 + r.Intn(4)
	family := r.P(1, 4) || prop == "C20" && r.P(1, 2)
	if family {
		names = []string{"c1", "c2", "c10", "C1", "c_1", "c", "C", "public"}
		shuffle(r, names)
	}
	exprs := checkExprs
	if family {
		exprs = famExprs
	}
	wide := (prop == "C18" || prop == "C19" || prop == "C20") && r.P(1, 25) // a few tables with many columns, checks and indexes
	if wide {
		size = 1 + r.Intn(3)
	} else if size > 1 && r.P(1, 100) {
		size = 25 // many tables
	}
	many := size > 0 && r.P(1, 60) // many schemas, functions, and sequences
	if many {
		names = append(names, "s11", "s2", "s1", "s10", "S1", "tmp", "x", "y", "z")
		ns = len(names) - r.Intn(4)
	}
	for i := 0; i < ns; i++ {
		s := CSchema{Name: names[i], Owner: r.Intn(len(catRoles)), Comment: r.maybe(30, wildTexts)}
		cs.Schemas = append(cs.Schemas, s)
	}
	np := 1 + r.Intn(ns)
	for i := 0; i < np; i++ {
		cs.SearchPath = append(cs.SearchPath, i)
	}
	shuffle(r, cs.SearchPath)
	if r.P(1, 15) {
		cs.SearchPath = nil
	}
	var ps []string
	for _, i := range cs.SearchPath {
		ps = append(ps, quoteSQL(cs.Schemas[i].Name))
	}
	if r.P(1, 2) {
		ps = append([]string{"\"$user\""}, ps...)
	}
	cs.Path = strings.Join(ps, ", ")
	wild := pick(r, 0, 20, 50)
	ident := func(base string, i int) string { return fmt.Sprintf("%s%d", base, i) }
	used := map[string]bool{} // schema/relname
	fresh := func(schema int, n string) bool {
		k := fmt.Sprint(schema, "/", n)
		if used[k] {
			return false
		}
		used[k] = true
		return true
	}
	nt := r.Intn(size + 1)
	if prop == "C20" && nt == 0 {
		nt = 1 + r.Intn(3)
	}
	tnames := []string{"foo", "bar", "baz", "foo", "t1", "orders", "zed", "foo", "bar", "t2"}
	for i := 0; i < nt; i++ {
		t := CTable{Schema: r.Intn(ns), Name: tnames[r.Intn(len(tnames))], Owner: r.Intn(len(catRoles)), Comment: r.maybe(30, wildTexts), Kind: pick(r, "r", "r", "r", "r", "p", "r", "v", "m")}
		if prop == "C20" {
			t.Kind = "r"
		}
		if cs.Ver == 9 && t.Kind == "p" {
			t.Kind = "r"
		}
		plain := true
		if r.Intn(100) < wild {
			t.Name = wildNames[r.Intn(len(wildNames))]
			plain = false
		}
		if family && r.P(2, 3) {
			t.Name, plain = famSimple[r.Intn(len(famSimple))], true
			if r.Intn(100) < wild {
				t.Name, plain = famWild[r.Intn(len(famWild))], false
			}
		}
		if !fresh(t.Schema, t.Name) {
			t.Name = ident("t_", i)
			plain = true
			if !fresh(t.Schema, t.Name) {
				continue
			}
		}
		nc := r.Intn(7)
		if size > 20 {
			nc = r.Intn(3)
		}
		pool := append([]string(nil), simpleNames...)
		if wild > 0 {
			pool = append(pool, wildNames...)
		}
		if family {
			pool = append([]string(nil), famSimple...)
			if wild > 0 {
				pool = append(pool, famWild...)
			}
		}
		shuffle(r, pool)
		if wide {
			nc = 7 + r.Intn(len(pool)-6)
		}
		var simp []int // columns that can be named in a definition
		for j := 0; j < nc; j++ {
			c := CCol{Name: pool[j], Type: r.Intn(len(catTypes)), NotNull: r.P(1, 2), Default: r.maybe(30, []string{"now()", "nextval('foo_id_seq'::regclass)", "'${x}'::text", "''::text", "0", "'a\"b'::text", "CURRENT_TIMESTAMP", "'two\nlines'::text", "(-1)", "'-1'::integer", "'{}'::jsonb", "ARRAY[]::integer[]", "NULL::character varying", "E'\\\\n'::text", "('now'::text)::date", "(a + 1)", "nextval('\"Odd\".\"my seq\"'::regclass)", "true", "' lead'::text", "timezone('utc'::text, now())"}), Comment: r.maybe(20, wildTexts)}
			if simpleIdent(c.Name) {
				simp = append(simp, j)
			}
			t.Cols = append(t.Cols, c)
		}
		if t.Kind == "v" || t.Kind == "m" {
			cs.Tables = append(cs.Tables, t)
			continue
		}
		kc := r.Intn(3)
		if prop == "C20" {
			kc = r.Intn(6)
		}
		if wide {
			kc = r.Intn(20)
		}
		for j := 0; j < kc; j++ {
			n := ident(pick(r, "chk", "z", "a", "B"), j)
			if r.Intn(100) < wild {
				n = wildNames[r.Intn(len(wildNames))] + n
			}
			t.Checks = append(t.Checks, CCheck{Name: n, Expr: strings.TrimRight(exprs[r.Intn(len(exprs))], " ")})
		}
		if r.P(1, 3) {
			k := 1 + r.Intn(4)
			pp := append([]string(nil), storParams...)
			shuffle(r, pp)
			for _, p := range pp[:k] {
				v := strconv.Itoa(r.Intn(100))
				switch {
				case strings.HasSuffix(p, "scale_factor="):
					v = pick(r, "0.1", "0.05", "1", "0", "99.5", "1e-3")
				case p == "autovacuum_vacuum_cost_delay=":
					v = pick(r, "0", "20", "0.5", "2", "-1")
				case p == "autovacuum_enabled=" || p == "user_catalog_table=":
					v = pick(r, "true", "false", "true", "false", "on", "off", "yes", "no", "FALSE", "On")
				case p == "log_autovacuum_min_duration=":
					v = pick(r, "-1", "0", "2500")
				case strings.HasSuffix(p, "age="):
					v = pick(r, "0", "200000000", "1000000")
				}
				t.Params = append(t.Params, p+v)
			}
		}
		if plain && len(simp) > 0 {
			ni := r.Intn(4)
			if prop == "C20" {
				ni = r.Intn(6)
			}
			if wide {
				ni = r.Intn(16)
			}
			for j := 0; j < ni; j++ {
				x := CIdx{Name: t.Name + "_" + pick(r, "idx", "key", "a", "zz", "b") + strconv.Itoa(j), Using: "btree"}
				if family {
					x.Name = pick(r, "i", "i", t.Name+"_i") + pick(r, "", "1", "2", "9", "10", "11", "_1", "a", "01", "100")
				}
				if !fresh(t.Schema, x.Name) {
					continue
				}
				prim := j == 0 && r.P(1, 2)
				x.Primary, x.Unique = prim, prim || r.P(1, 3)
				k := 1 + r.Intn(3)
				for q := 0; q < k; q++ {
					key := CKey{Col: simp[r.Intn(len(simp))]}
					if !prim {
						switch r.Intn(8) {
						case 0:
							if q == 0 {
								key.Expr = pick(r, "lower("+t.Cols[key.Col].Name+")", "(a + 1)", "upper(a::text)")
								key.Col = -1
								if r.P(1, 3) {
									key.Op = "text_pattern_ops"
								}
							}
						case 1:
							key.Op = pick(r, "text_pattern_ops", "varchar_pattern_ops")
						case 2:
							key.Desc = true
						}
					}
					x.Keys = append(x.Keys, key)
				}
				if !prim {
					if !x.Unique {
						x.Using = pick(r, "btree", "btree", "gin", "hash", "brin")
					}
					if r.P(1, 4) {
						x.Where = pick(r, "a > 0", "key IS NOT NULL", "b = 'x  y'::text", "(a = ANY (ARRAY[1, 2]))", "a ~ 'WHERE'::text")
					}
				}
				t.Idx = append(t.Idx, x)
			}
			ng := r.Intn(4) - 1
			if wide && r.P(1, 2) {
				ng = 5 + r.Intn(40)
			}
			for j := 0; j < ng; j++ {
				g := CTrg{Name: pick(r, "trg", "update_mod", "a") + strconv.Itoa(j), When: pick(r, "BEFORE", "AFTER", "AFTER"), Row: r.P(2, 3), Func: pick(r, "f", "update_modified_column", "fn2")}
				for _, e := range "IDUT" {
					if r.P(1, 3) {
						g.Events += string(e)
					}
				}
				if g.Row {
					g.Events = strings.Trim(g.Events, "T")
				}
				if g.Events == "" {
					g.Events = "U"
				}
				if strings.Contains(g.Events, "U") && r.P(1, 3) {
					for q := 0; q <= r.Intn(2); q++ {
						g.Cols = append(g.Cols, simp[r.Intn(len(simp))])
					}
				}
				if g.When == "AFTER" && g.Row && r.P(1, 3) {
					g.Cons = 1 + r.Intn(2)
				}
				t.Trg = append(t.Trg, g)
			}
		}
		cs.Tables = append(cs.Tables, t)
	}
	vis := cs.visibleRels()
	for i := range cs.Tables {
		t := &cs.Tables[i]
		simp := cs.simpleCols(i)
		if t.Kind != "r" || len(simp) == 0 || r.P(1, 2) {
			continue
		}
		nk := 1 + r.Intn(3)
		if wide && r.P(1, 2) {
			nk = 5 + r.Intn(40)
		}
		for j := 0; j < nk; j++ {
			ref := r.Intn(len(cs.Tables))
			rs := cs.simpleCols(ref)
			if !vis[relKey{cs.Tables[ref].Schema, cs.Tables[ref].Name}] || !simpleIdent(cs.Tables[ref].Name) || len(rs) == 0 || cs.Tables[ref].Kind == "v" || cs.Tables[ref].Kind == "m" {
				continue
			}
			k := CFK{Name: fmt.Sprintf("fk%d", j), Ref: ref}
			if r.Intn(100) < wild {
				k.Name = wildNames[r.Intn(len(wildNames))] + k.Name
			}
			for q := 0; q < 1+r.Intn(2); q++ {
				k.Cols = append(k.Cols, simp[r.Intn(len(simp))])
				k.RCols = append(k.RCols, rs[r.Intn(len(rs))])
			}
			k.Match = pick(r, "", "", "FULL")
			switch r.Intn(4) {
			case 0:
				k.Del = pick(r, "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT")
			case 1:
				k.Upd = pick(r, "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT")
			}
			if r.P(1, 4) {
				k.Defer = 1
			}
			t.FKs = append(t.FKs, k)
		}
	}
	nf := r.Intn(4)
	if many {
		nf = r.Intn(40)
	}
	for i := 0; i < nf; i++ {
		f := CFunc{Schema: r.Intn(ns), Name: pick(r, "f", "g", "f", "update_modified_column", "now"), Owner: r.Intn(len(catRoles)), Comment: r.maybe(30, wildTexts), Returns: strp(pick(r, "trigger", "integer", "void", "TABLE(a integer, b text)", "SETOF \"Foo\"", "event_trigger", "SETOF record", "integer[]", "character varying")), Lang: r.Intn(len(catLangs)), Def: wildDefs[r.Intn(len(wildDefs))]}
		if r.Intn(100) < wild {
			f.Name = wildNames[r.Intn(len(wildNames))]
		}
		if many && r.P(3, 4) {
			f.Name = fmt.Sprintf("f%d", r.Intn(60))
		}
		if r.P(1, 40) { // long
			f.Def = strings.Repeat(f.Def+"\n-- and so on;\n", 1+r.Intn(pick(r, 100, 1000, 4000)))
		}
		if r.P(1, 10) && cs.Ver == 11 {
			f.Returns = nil // a procedure
		}
		f.Args = pick(r, "", "a integer", "text, text")
		dup := false
		for _, g := range cs.Funcs {
			if g.Schema == f.Schema && g.Name == f.Name && g.Args == f.Args {
				dup = true
			}
		}
		if !dup {
			cs.Funcs = append(cs.Funcs, f)
		}
	}
	nq := r.Intn(4)
	if many {
		nq = r.Intn(40)
	}
	for i := 0; i < nq; i++ {
		q := CSeq{Schema: r.Intn(ns), Name: pick(r, "foo_id_seq", "seq", "bar_seq", "s1"), Owner: r.Intn(len(catRoles)), Comment: r.maybe(30, wildTexts), Start: 1, Min: 1, Max: 2147483647, Inc: 1, Cache: 1, Table: -1}
		if r.Intn(100) < wild {
			q.Name = wildNames[r.Intn(len(wildNames))]
		}
		if many && r.P(3, 4) {
			q.Name = fmt.Sprintf("q%d", r.Intn(60))
		}
		if !fresh(q.Schema, q.Name) {
			continue
		}
		if cs.Ver == 11 {
			q.Type = r.Intn(len(seqTypes))
		}
		if r.P(1, 2) {
			q.Start = pick(r, int64(1), 7, -5, 1<<40, 9223372036854775807, -9223372036854775808)
			q.Min = pick(r, int64(1), -9223372036854775808, -100)
			q.Max = pick(r, int64(9223372036854775807), 100, -1)
			q.Inc = pick(r, int64(1), -1, 10, -9223372036854775808)
			q.Cache = pick(r, int64(1), 20)
			q.Cycle = r.P(1, 2)
		}
		if len(cs.Tables) > 0 && r.P(2, 3) {
			t := r.Intn(len(cs.Tables))
			if n := len(cs.Tables[t].Cols); n > 0 {
				q.Table, q.Col = t, r.Intn(n)
				q.Ident = cs.Ver == 11 && r.P(1, 3)
			}
		}
		cs.Seqs = append(cs.Seqs, q)
	}
	return cs
}

func quoteSQL(s string) string {
	if simpleIdent(s) {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

func simpleIdent(s string) bool {
	if s == "" || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	for _, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return s != "null" && s != "true"
}

func (cs *CatSpec) simpleCols(t int) []int {
	var out []int
	for i, c := range cs.Tables[t].Cols {
		if simpleIdent(c.Name) {
			out = append(out, i)
		}
	}
	return out
}

func (cs *CatSpec) valid() bool {
	if cs == nil || len(cs.Schemas) == 0 {
		return false
	}
	used := map[relKey]bool{}
	rel := func(schema int, n string) bool {
		k := relKey{schema, n}
		if n == "" || schema < 0 || schema >= len(cs.Schemas) || used[k] {
			return false
		}
		used[k] = true
		return true
	}
	ns := map[string]bool{}
	for _, s := range cs.Schemas {
		if s.Name == "" || strings.HasPrefix(s.Name, "pg_") || ns[s.Name] || s.Owner < 0 || s.Owner >= len(catRoles) {
			return false
		}
		ns[s.Name] = true
	}
	for _, i := range cs.SearchPath {
		if i < 0 || i >= len(cs.Schemas) {
			return false
		}
	}
	for i := range cs.Tables {
		if !rel(cs.Tables[i].Schema, cs.Tables[i].Name) {
			return false
		}
	}
	vis := cs.visibleRels()
	for i := range cs.Tables {
		t := &cs.Tables[i]
		seen := map[string]bool{}
		for _, c := range t.Cols {
			if c.Name == "" || seen[c.Name] || c.Type < 0 || c.Type >= len(catTypes) {
				return false
			}
			seen[c.Name] = true
		}
		col := func(n int) bool { return n >= 0 && n < len(t.Cols) && simpleIdent(t.Cols[n].Name) }
		switch t.Kind {
		case "r", "p":
		case "v", "m":
			if len(t.Checks)+len(t.FKs)+len(t.Idx)+len(t.Trg)+len(t.Params) > 0 {
				return false
			}
		default:
			return false
		}
		seen = map[string]bool{}
		for _, c := range t.Checks {
			if c.Name == "" || c.Expr == "" || c.Expr != strings.TrimSpace(c.Expr) || seen[c.Name] {
				return false
			}
			seen[c.Name] = true
		}
		for _, k := range t.FKs {
			if k.Name == "" || seen[k.Name] || len(k.Cols) == 0 || len(k.Cols) != len(k.RCols) || k.Ref < 0 || k.Ref >= len(cs.Tables) || k.Del != "" && k.Upd != "" {
				return false
			}
			seen[k.Name] = true
			rt := &cs.Tables[k.Ref]
			if !simpleIdent(rt.Name) || !vis[relKey{rt.Schema, rt.Name}] || rt.Kind == "v" || rt.Kind == "m" {
				return false
			}
			for q := range k.Cols {
				if !col(k.Cols[q]) || k.RCols[q] < 0 || k.RCols[q] >= len(rt.Cols) || !simpleIdent(rt.Cols[k.RCols[q]].Name) {
					return false
				}
			}
		}
		if len(t.Idx)+len(t.Trg) > 0 && !simpleIdent(t.Name) {
			return false
		}
		for _, x := range t.Idx {
			if !simpleIdent(x.Name) || !rel(t.Schema, x.Name) || len(x.Keys) == 0 || x.Primary && !x.Unique {
				return false
			}
			for q, k := range x.Keys {
				if k.Expr == "" && !col(k.Col) || k.Expr != "" && q > 0 || k.Op != "" && k.Desc || k.Expr != "" && k.Desc {
					return false
				}
			}
		}
		seen = map[string]bool{}
		for _, g := range t.Trg {
			if !simpleIdent(g.Name) || seen[g.Name] || g.Events == "" || !simpleIdent(g.Func) {
				return false
			}
			seen[g.Name] = true
			for _, c := range g.Cols {
				if !col(c) {
					return false
				}
			}
		}
		seen = map[string]bool{}
		for _, p := range t.Params {
			i := strings.Index(p, "=")
			if i < 0 || seen[p[:i]] {
				return false
			}
			seen[p[:i]] = true
		}
	}
	for _, f := range cs.Funcs {
		if f.Name == "" || f.Schema < 0 || f.Schema >= len(cs.Schemas) || f.Lang < 0 || f.Lang >= len(catLangs) {
			return false
		}
		n := 0
		for _, g := range cs.Funcs {
			if g.Schema == f.Schema && g.Name == f.Name && g.Args == f.Args {
				n++
			}
		}
		if n > 1 {
			return false
		}
	}
	for _, q := range cs.Seqs {
		if !rel(q.Schema, q.Name) || q.Type < 0 || q.Type >= len(seqTypes) || cs.Ver == 9 && q.Type != 0 || q.Table < -1 || q.Table >= len(cs.Tables) || q.Table >= 0 && (q.Col < 0 || q.Col >= len(cs.Tables[q.Table].Cols)) {
			return false
		}
	}
	return cs.Ver == 9 || cs.Ver == 11
}

type relKey struct {
	schema int
	name   string
}

// visibleRels tells which relations the search path finds by their bare names.
func (cs *CatSpec) visibleRels() map[relKey]bool {
	all := map[relKey]bool{}
	for i := range cs.Tables {
		t := &cs.Tables[i]
		all[relKey{t.Schema, t.Name}] = true
		for _, x := range t.Idx {
			all[relKey{t.Schema, x.Name}] = true
		}
	}
	for _, q := range cs.Seqs {
		all[relKey{q.Schema, q.Name}] = true
	}
	vis := map[relKey]bool{}
	for k := range all {
		for _, s := range cs.SearchPath {
			k2 := relKey{s, k.name}
			if all[k2] {
				if s == k.schema {
					vis[k] = true
				}
				break
			}
		}
	}
	return vis
}

// visibleFunc tells whether the search path finds a function.
func (cs *CatSpec) visibleFunc(f *CFunc) bool {
	if cs.Noise > 0 && f.Name == "now" && f.Args == "" {
		return false // pg_catalog's comes first
	}
	for _, s := range cs.SearchPath {
		for _, g := range cs.Funcs {
			if g.Schema == s && g.Name == f.Name && g.Args == f.Args {
				return s == f.Schema
			}
		}
	}
	return false
}

// ---- the server's catalog ----

type descKey struct {
	cat      string
	oid, sub int64
}

// Catalog is the content of a simulated database.
type Catalog struct {
	s        *Sim
	rels     map[string]*relation // pg_catalog
	user     map[string]*relation // "schema"."name"
	plans    map[string]*Plan
	settings map[string]string
	collate  bool
	roles    map[int64]string
	descr    map[descKey]string
	condef   map[int64][2]string
	idxdef   map[int64][2]string
	trgdef   map[int64][2]string
	fnres    map[int64]string
	fnargs   map[int64]string
	visible  map[int64]bool
	order    [][]int // of tables' columns, physically
	version  string
	dbname   string
	odd      string // what has an unsupported form, if anything
	odds     int
}

func (c *Catalog) relation(schema, n string) *relation {
	if schema == "" || schema == "pg_catalog" {
		if r := c.rels[n]; r != nil {
			return r
		}
	}
	return c.user[schema+"\x00"+n]
}

func (c *Catalog) formatType(oid, mod int64) string {
	base := ""
	for _, t := range catTypes {
		if t.oid == oid {
			if t.mod == mod {
				return t.text
			}
			if t.mod == -1 {
				base = t.text
			}
		}
	}
	if oid == 1700 {
		base = "numeric"
	}
	if base == "" {
		return "???"
	}
	return base
}

// build makes the system catalog. perm chooses where things are stored and
// which numbers they have; it has no bearing on what the database contains.
func (cs *CatSpec) build(s *Sim, perm uint64, version string) *Catalog {
	r := newRand(perm)
	c := &Catalog{s: s, rels: map[string]*relation{}, user: map[string]*relation{}, collate: cs.Collate,
		settings: map[string]string{"search_path": cs.Path, "timezone": cs.Timezone},
		roles:    map[int64]string{}, descr: map[descKey]string{}, condef: map[int64][2]string{}, idxdef: map[int64][2]string{}, trgdef: map[int64][2]string{},
		fnres: map[int64]string{}, fnargs: map[int64]string{}, visible: map[int64]bool{}, version: version, dbname: "db"}
	var pool []int64
	base := int64(16384)
	for i := int64(0); i < 400; i++ {
		pool = append(pool, base+i)
	}
	if perm != 0 {
		shuffle(r, pool)
	}
	oid := func() int64 {
		o := pool[0]
		pool = pool[1:]
		return o
	}
	for i, n := range catRoles {
		c.roles[int64(10+i)] = n
	}
	def := func(n string, roid int64, cols ...any) *relation {
		rel := &relation{oid: roid, name: n}
		for i := 0; i < len(cols); i += 2 {
			rel.cols = append(rel.cols, Col{cols[i].(string), cols[i+1].(Typ)})
		}
		c.rels[n] = rel
		return rel
	}
	nsp := def("pg_namespace", 2615, "oid", tOID, "nspname", tName, "nspowner", tOID)
	cls := def("pg_class", 1259, "oid", tOID, "relname", tName, "relnamespace", tOID, "relkind", tChar, "relowner", tOID, "reloptions", tTextArr, "relispartition", tBool, "relpersistence", tChar, "relhasindex", tBool)
	att := def("pg_attribute", 1249, "attrelid", tOID, "attname", tName, "atttypid", tOID, "atttypmod", tInt4, "attnum", tInt2, "attnotnull", tBool, "atthasdef", tBool, "attisdropped", tBool)
	adf := def("pg_attrdef", 2604, "oid", tOID, "adrelid", tOID, "adnum", tInt2, "adbin", tText)
	con := def("pg_constraint", 2606, "oid", tOID, "conname", tName, "connamespace", tOID, "contype", tChar, "condeferrable", tBool, "condeferred", tBool, "convalidated", tBool, "conrelid", tOID, "confrelid", tOID, "conkey", tTextArr, "confkey", tTextArr)
	idx := def("pg_index", 2610, "indexrelid", tOID, "indrelid", tOID, "indisunique", tBool, "indisprimary", tBool, "indisvalid", tBool)
	trg := def("pg_trigger", 2620, "oid", tOID, "tgrelid", tOID, "tgname", tName, "tgisinternal", tBool, "tgenabled", tChar)
	prc := def("pg_proc", 1255, "oid", tOID, "proname", tName, "pronamespace", tOID, "proowner", tOID, "prolang", tOID, "prosrc", tText)
	lng := def("pg_language", 2612, "oid", tOID, "lanname", tName)
	dep := def("pg_depend", 2608, "classid", tOID, "objid", tOID, "objsubid", tInt4, "refclassid", tOID, "refobjid", tOID, "refobjsubid", tInt4, "deptype", tChar)
	dsc := def("pg_description", 2609, "objoid", tOID, "classoid", tOID, "objsubid", tInt4, "description", tText)
	rol := def("pg_roles", 12000, "oid", tOID, "rolname", tName)
	var seq *relation
	if cs.Ver >= 10 {
		seq = def("pg_sequence", 2224, "seqrelid", tOID, "seqtypid", tOID, "seqstart", tInt8, "seqincrement", tInt8, "seqmax", tInt8, "seqmin", tInt8, "seqcache", tInt8, "seqcycle", tBool)
	}
	row := func(rel *relation, vs ...any) {
		if len(vs) != len(rel.cols) {
			panic("row of " + rel.name)
		}
		var rr []Val
		for i, v := range vs {
			t := rel.cols[i].T
			switch v := v.(type) {
			case string:
				rr = append(rr, Val{T: t, S: v})
			case int64:
				rr = append(rr, Val{T: t, I: v})
			case int:
				rr = append(rr, Val{T: t, I: int64(v)})
			case bool:
				rr = append(rr, Val{T: t, B: v})
			case []string:
				rr = append(rr, Val{T: t, Arr: v, Null: v == nil, S: "{" + strings.Join(v, ",") + "}"})
			case []int64:
				if v == nil {
					v = []int64{}
				}
				rr = append(rr, Val{T: t, Ints: v})
			default:
				panic(fmt.Sprintf("value %T", v))
			}
		}
		rel.rows = append(rel.rows, rr)
	}
	for o, n := range c.roles {
		row(rol, o, n)
	}
	sort.Slice(rol.rows, func(i, j int) bool { return rol.rows[i][0].I < rol.rows[j][0].I })
	catOID := map[string]int64{"pg_class": 1259, "pg_namespace": 2615, "pg_proc": 1255}
	describe := func(cat string, o, sub int64, text *string) {
		if text != nil {
			c.descr[descKey{cat, o, sub}] = *text
			row(dsc, o, catOID[cat], sub, *text)
		}
	}
	// system schemas
	row(nsp, 11, "pg_catalog", 10)
	row(nsp, 99, "pg_toast", 10)
	row(nsp, 12500, "information_schema", 10)
	if cs.Noise > 1 {
		row(nsp, 12600, "pg_temp_1", 10)
		row(nsp, 12601, "pg_toast_temp_1", 10)
	}
	describe("pg_namespace", 11, 0, strp("system catalog schema"))
	nso := make([]int64, len(cs.Schemas))
	for i, sc := range cs.Schemas {
		nso[i] = oid()
		row(nsp, nso[i], sc.Name, 10+sc.Owner)
		describe("pg_namespace", nso[i], 0, sc.Comment)
	}
	var none []string
	for _, n := range sortedKeys(c.rels) {
		rel := c.rels[n]
		row(cls, rel.oid, n, 11, "r", 10, none, false, "p", false)
		c.visible[rel.oid] = true
		for i, col := range rel.cols {
			row(att, rel.oid, col.Name, col.T.oid(), -1, i+1, true, false, false)
		}
	}
	if cs.Noise > 0 {
		row(cls, 12700, "tables", 12500, "v", 10, none, false, "p", false)
		row(cls, 12701, "sql_features", 12500, "r", 10, none, false, "p", false)
		row(cls, 12702, "pg_toast_1255", 99, "t", 10, none, false, "p", true)
		row(cls, 12703, "pg_toast_table", 99, "r", 10, none, false, "p", true)
		c.visible[12701], c.visible[12703] = true, true // as with a search path naming them
	}
	lno := make([]int64, len(catLangs))
	for i, n := range catLangs {
		lno[i] = int64(12 + i)
		row(lng, lno[i], n)
	}
	if cs.Noise > 0 {
		row(prc, 1299, "now", 11, 10, lno[3], "now")
		c.visible[1299] = true
		c.fnres[1299] = "timestamp with time zone"
		row(prc, 12800, "_pg_index_position", 12500, 10, lno[1], "SELECT 1")
		c.visible[12800] = true
		c.fnres[12800] = "integer"
	}
	vis := cs.visibleRels()
	odd := func(kind, how string) string {
		if cs.Odd != kind || c.odd != "" {
			return ""
		}
		if c.odds++; c.odds <= cs.OddAt {
			return ""
		}
		c.odd = kind
		return how
	}
	tbo := make([]int64, len(cs.Tables))
	num := make([][]int64, len(cs.Tables))
	for i := range cs.Tables {
		t := &cs.Tables[i]
		tbo[i] = oid()
		params := append([]string(nil), t.Params...)
		for j, p := range params {
			// the server takes hexadecimal numbers, and keeps what it was given
			eq := strings.IndexByte(p, '=')
			if v, err := strconv.Atoi(p[eq+1:]); err == nil && v >= 0 && !strings.HasSuffix(p[:eq], "scale_factor") && !strings.HasSuffix(p[:eq], "cost_delay") {
				if x := odd("storage parameter", fmt.Sprintf("0x%x", v)); x != "" {
					params[j] = p[:eq+1] + x
				}
			}
		}
		row(cls, tbo[i], t.Name, nso[t.Schema], t.Kind, 10+t.Owner, params, false, "p", len(t.Idx) > 0)
		c.visible[tbo[i]] = vis[relKey{t.Schema, t.Name}]
		describe("pg_class", tbo[i], 0, t.Comment)
		order := make([]int, len(t.Cols))
		for j := range order {
			order[j] = j
		}
		if perm != 0 {
			shuffle(r, order)
		}
		c.order = append(c.order, order)
		num[i] = make([]int64, len(t.Cols))
		n := int64(1)
		if cs.Noise > 0 {
			for j, a := range []string{"tableoid", "ctid", "xmin"} {
				row(att, tbo[i], a, 26, -1, -7+j, true, false, false)
			}
		}
		for _, j := range order {
			if cs.Noise > 1 && (i+int(n))%3 == 0 {
				row(att, tbo[i], fmt.Sprintf("........pg.dropped.%d........", n), 0, -1, n, false, false, true)
				n++
			}
			col := t.Cols[j]
			num[i][j] = n
			ty := catTypes[col.Type]
			row(att, tbo[i], col.Name, ty.oid, ty.mod, n, col.NotNull, col.Default != nil, false)
			if col.Default != nil {
				row(adf, oid(), tbo[i], n, *col.Default)
			}
			describe("pg_class", tbo[i], n, col.Comment)
			n++
		}
	}
	name := func(t *CTable, n int) string { return t.Cols[n].Name }
	for i := range cs.Tables {
		t := &cs.Tables[i]
		qual := quoteSQL(cs.Schemas[t.Schema].Name) + "." + quoteSQL(t.Name)
		short := quoteSQL(t.Name)
		if !c.visible[tbo[i]] {
			short = qual
		}
		for _, k := range t.Checks {
			o := oid()
			row(con, o, k.Name, nso[t.Schema], "c", false, false, true, tbo[i], 0, []int64{1}, []int64{})
			x := odd("check", " NO INHERIT")
			c.condef[o] = [2]string{"CHECK ((" + k.Expr + "))" + x, "CHECK (" + k.Expr + ")" + x}
		}
		for _, k := range t.FKs {
			o := oid()
			var ck, rk []int64
			var cn, rn []string
			rt := &cs.Tables[k.Ref]
			for q := range k.Cols {
				ck = append(ck, num[i][k.Cols[q]])
				cn = append(cn, name(t, k.Cols[q]))
				rk = append(rk, num[k.Ref][k.RCols[q]])
				rn = append(rn, name(rt, k.RCols[q]))
			}
			d := "FOREIGN KEY (" + strings.Join(cn, ", ") + ") REFERENCES " + rt.Name + "(" + strings.Join(rn, ", ") + ")"
			if k.Match != "" {
				d += " MATCH " + k.Match
			}
			if k.Upd != "" {
				d += " ON UPDATE " + k.Upd
			}
			if k.Del != "" {
				d += " ON DELETE " + k.Del
			}
			if k.Defer > 0 {
				d += " DEFERRABLE INITIALLY DEFERRED"
			}
			row(con, o, k.Name, nso[t.Schema], "f", k.Defer > 0, k.Defer > 0, true, tbo[i], tbo[k.Ref], ck, rk)
			d += odd("foreign key", " NOT VALID")
			c.condef[o] = [2]string{d, d}
			if cs.Noise > 1 { // the triggers that enforce it
				for q := 0; q < 2; q++ {
					g := oid()
					row(trg, g, tbo[i], fmt.Sprintf("RI_ConstraintTrigger_c_%d", g), true, "O")
					td := "CREATE CONSTRAINT TRIGGER \"RI_ConstraintTrigger_c\" AFTER INSERT ON " + short + " FROM " + rt.Name + " NOT DEFERRABLE INITIALLY IMMEDIATE FOR EACH ROW EXECUTE PROCEDURE \"RI_FKey_check_ins\"()"
					c.trgdef[g] = [2]string{td, td}
				}
			}
		}
		for _, x := range t.Idx {
			o := oid()
			row(cls, o, x.Name, nso[t.Schema], "i", 10+t.Owner, none, false, "p", false)
			c.visible[o] = vis[relKey{t.Schema, x.Name}]
			row(idx, o, tbo[i], x.Unique, x.Primary, true)
			if x.Primary {
				p := oid()
				row(con, p, x.Name, nso[t.Schema], "p", false, false, true, tbo[i], 0, []int64{1}, []int64{})
				c.condef[p] = [2]string{"PRIMARY KEY (x)", "PRIMARY KEY (x)"}
			}
			var ks []string
			for _, k := range x.Keys {
				e := k.Expr
				if e == "" {
					e = name(t, k.Col)
				}
				if k.Op != "" {
					e += " " + k.Op
				}
				if k.Desc {
					e += " DESC"
				}
				ks = append(ks, e)
			}
			u := ""
			if x.Unique {
				u = "UNIQUE "
			}
			inc := odd("index", " INCLUDE (extra)")
			d := func(tab, where string) string {
				w := inc
				if x.Where != "" {
					w += " WHERE " + where
				}
				return "CREATE " + u + "INDEX " + x.Name + " ON " + tab + " USING " + x.Using + " (" + strings.Join(ks, ", ") + ")" + w
			}
			c.idxdef[o] = [2]string{d(qual, "("+x.Where+")"), d(short, x.Where)}
		}
		for _, g := range t.Trg {
			o := oid()
			row(trg, o, tbo[i], g.Name, false, "O")
			var ev []string
			for _, e := range g.Events {
				switch e {
				case 'I':
					ev = append(ev, "INSERT")
				case 'D':
					ev = append(ev, "DELETE")
				case 'T':
					ev = append(ev, "TRUNCATE")
				case 'U':
					u := "UPDATE"
					if len(g.Cols) > 0 {
						var cn []string
						for _, q := range g.Cols {
							cn = append(cn, name(t, q))
						}
						u += " OF " + strings.Join(cn, ", ")
					}
					ev = append(ev, u)
				}
			}
			arg := odd("trigger", "'an argument'")
			d := func(tab string) string {
				cons, dfr, each := "", "", "FOR EACH STATEMENT"
				if g.Cons > 0 {
					cons = "CONSTRAINT "
					dfr = "DEFERRABLE INITIALLY " + map[bool]string{true: "DEFERRED", false: "IMMEDIATE"}[g.Cons == 2] + " "
				}
				if g.Row {
					each = "FOR EACH ROW"
				}
				ex := "PROCEDURE"
				if cs.Ver >= 11 {
					ex = "FUNCTION"
				}
				return "CREATE " + cons + "TRIGGER " + g.Name + " " + g.When + " " + strings.Join(ev, " OR ") + " ON " + tab + " " + dfr + each + " EXECUTE " + ex + " " + g.Func + "(" + arg + ")"
			}
			c.trgdef[o] = [2]string{d(qual), d(short)}
		}
	}
	for i := range cs.Funcs {
		f := &cs.Funcs[i]
		o := oid()
		row(prc, o, f.Name, nso[f.Schema], 10+f.Owner, lno[f.Lang], f.Def)
		c.visible[o] = cs.visibleFunc(f)
		if f.Returns != nil {
			c.fnres[o] = *f.Returns
		}
		c.fnargs[o] = f.Args
		describe("pg_proc", o, 0, f.Comment)
	}
	for _, q := range cs.Seqs {
		o := oid()
		row(cls, o, q.Name, nso[q.Schema], "S", 10+q.Owner, none, false, "p", false)
		c.visible[o] = vis[relKey{q.Schema, q.Name}]
		describe("pg_class", o, 0, q.Comment)
		rel := &relation{oid: o, name: q.Name, user: true}
		iv := func(n int64) Val { return Val{T: tInt8, I: n} }
		if cs.Ver >= 10 {
			row(seq, o, seqTypes[q.Type].oid, q.Start, q.Inc, q.Max, q.Min, q.Cache, q.Cycle)
			rel.cols = []Col{{"last_value", tInt8}, {"log_cnt", tInt8}, {"is_called", tBool}}
			rel.rows = [][]Val{{iv(q.Start), iv(0), boolVal(false)}}
		} else {
			rel.cols = []Col{{"sequence_name", tName}, {"last_value", tInt8}, {"start_value", tInt8}, {"increment_by", tInt8}, {"max_value", tInt8}, {"min_value", tInt8}, {"cache_value", tInt8}, {"log_cnt", tInt8}, {"is_cycled", tBool}, {"is_called", tBool}}
			rel.rows = [][]Val{{{T: tName, S: q.Name}, iv(q.Start), iv(q.Start), iv(q.Inc), iv(q.Max), iv(q.Min), iv(q.Cache), iv(0), boolVal(q.Cycle), boolVal(false)}}
		}
		c.user[cs.Schemas[q.Schema].Name+"\x00"+q.Name] = rel
		for i, col := range rel.cols {
			row(att, o, col.Name, col.T.oid(), -1, i+1, true, false, false)
		}
		row(dep, 1259, o, 0, 2615, nso[q.Schema], 0, "n")
		if q.Table >= 0 {
			d := "a"
			if q.Ident {
				d = "i"
			}
			row(dep, 1259, o, 0, 1259, tbo[q.Table], num[q.Table][q.Col], d)
		}
		if cs.Noise > 1 { // other objects that share a number, and objects that use the sequence
			row(dep, 1255, o, 0, 1259, o, 0, "a")
			row(dep, 2604, oid(), 0, 1259, o, 0, "n")
			if len(tbo) > 0 {
				row(dep, 2606, o, 0, 1259, tbo[0], 1, "a")
				row(dep, 1259, o, 0, 1259, tbo[len(tbo)-1], 1, "n")
			}
		}
	}
	// views of the above
	set := def("pg_settings", 12100, "name", tText, "setting", tText)
	for _, n := range sortedKeys(c.settings) {
		row(set, n, c.settings[n])
	}
	row(set, "server_version", strings.TrimPrefix(strings.SplitN(version+" ", " ", 3)[1], " "))
	aut := def("pg_authid", 1260, "oid", tOID, "rolname", tName)
	aut.rows = append(aut.rows, rol.rows...)
	dbs := def("pg_database", 1262, "oid", tOID, "datname", tName, "datdba", tOID)
	row(dbs, 16383, c.dbname, 10)
	if perm != 0 {
		for _, n := range sortedKeys(c.rels) {
			shuffle(r, c.rels[n].rows)
		}
	}
	return c
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- what an inspection reports ----

// The description format, written down independently of pgutil's own types.
type xDB struct {
	Parameters *xParams `hcl:"parameters,block"`
	Schemas    []*xSch  `hcl:"schema,block"`
	Functions  []*xFn   `hcl:"function,block"`
	Sequences  []*xSeq  `hcl:"sequence,block"`
	Tables     []*xTab  `hcl:"table,block"`
	Indexes    []*xIdx  `hcl:"index,block"`
	Triggers   []*xTrg  `hcl:"trigger,block"`
}

type xParams struct {
	SearchPath []string `hcl:"search_path,optional"`
	Timezone   string   `hcl:"timezone,optional"`
}

type xSch struct {
	Name    string `hcl:"name,label"`
	Owner   string `hcl:"owner,optional"`
	Comment string `hcl:"comment,optional"`
}

type xFn struct {
	Schema     string `hcl:"schema,label"`
	Name       string `hcl:"name,label"`
	Owner      string `hcl:"owner,optional"`
	Comment    string `hcl:"comment,optional"`
	Returns    string `hcl:"returns,attr"`
	Language   string `hcl:"language,attr"`
	Definition string `hcl:"definition,attr"`
}

type xSeq struct {
	Schema    string  `hcl:"schema,label"`
	Name      string  `hcl:"name,label"`
	Owner     string  `hcl:"owner,optional"`
	Comment   string  `hcl:"comment,optional"`
	DataType  string  `hcl:"data_type,optional"`
	Start     int64   `hcl:"start,optional"`
	Minimum   int64   `hcl:"minimum,optional"`
	Maximum   int64   `hcl:"maximum,optional"`
	Increment int64   `hcl:"increment,optional"`
	Cache     int64   `hcl:"cache,optional"`
	Cycle     bool    `hcl:"cycle,optional"`
	OwnedBy   *xOwner `hcl:"owned_by,block"`
}

type xOwner struct {
	Schema string `hcl:"schema,attr"`
	Table  string `hcl:"table,attr"`
	Column string `hcl:"column,attr"`
}

type xTab struct {
	Schema  string `hcl:"schema,label"`
	Name    string `hcl:"name,label"`
	Owner   string `hcl:"owner,optional"`
	Comment string `hcl:"comment,optional"`

	Columns []*xCol   `hcl:"column,block"`
	Checks  []*xCheck `hcl:"check,block"`
	FKs     []*xFK    `hcl:"foreign_key,block"`
	Stor    *xStor    `hcl:"storage_parameters,block"`
	Params  map[string]string
}

type xStor struct {
	Rest hcl.Body `hcl:",remain"`
}

type xCol struct {
	Name    string `hcl:"name,label"`
	Type    string `hcl:"type,attr"`
	NotNull bool   `hcl:"not_null,optional"`
	Default string `hcl:"default,optional"`
	Comment string `hcl:"comment,optional"`
}

type xCheck struct {
	Name              string `hcl:"name,optional"`
	Expression        string `hcl:"expression,attr"`
	Deferrable        bool   `hcl:"deferrable,optional"`
	InitiallyDeferred bool   `hcl:"initially_deferred,optional"`
}

type xFK struct {
	Name              string   `hcl:"name,optional"`
	Table             string   `hcl:"table,label"`
	Columns           []string `hcl:"columns,attr"`
	Referenced        []string `hcl:"referenced,attr"`
	Match             string   `hcl:"match,optional"`
	OnDelete          string   `hcl:"on_delete,optional"`
	OnUpdate          string   `hcl:"on_update,optional"`
	Deferrable        bool     `hcl:"deferrable,optional"`
	InitiallyDeferred bool     `hcl:"initially_deferred,optional"`
}

type xIdx struct {
	Schema  string  `hcl:"schema,label"`
	Table   string  `hcl:"table,label"`
	Name    string  `hcl:"name,label"`
	Primary bool    `hcl:"primary,optional"`
	Unique  bool    `hcl:"unique,optional"`
	Using   string  `hcl:"using,optional"`
	Where   string  `hcl:"where,optional"`
	Keys    []*xKey `hcl:"key,block"`
}

type xKey struct {
	Column     string `hcl:"column,optional"`
	Expression string `hcl:"expression,optional"`
	OpClass    string `hcl:"opclass,optional"`
	Descending bool   `hcl:"descending,optional"`
}

type xTrg struct {
	Schema            string   `hcl:"schema,label"`
	Table             string   `hcl:"table,label"`
	Name              string   `hcl:"name,label"`
	Function          string   `hcl:"function,attr"`
	When              string   `hcl:"when,attr"`
	Constraint        bool     `hcl:"constraint,optional"`
	Deferrable        bool     `hcl:"deferrable,optional"`
	InitiallyDeferred bool     `hcl:"initially_deferred,optional"`
	ForEachRow        bool     `hcl:"for_each_row,optional"`
	Delete            bool     `hcl:"delete,optional"`
	Insert            bool     `hcl:"insert,optional"`
	Truncate          bool     `hcl:"truncate,optional"`
	Update            bool     `hcl:"update,optional"`
	Columns           []string `hcl:"columns,optional"`
}

// parseDescription reads a description back.
func parseDescription(text string) (*xDB, error) {
	p := hclparse.NewParser()
	f, diags := p.ParseHCL([]byte(text), "out.hcl")
	if diags.HasErrors() {
		return nil, diags
	}
	db := &xDB{}
	if diags = gohcl.DecodeBody(f.Body, nil, db); diags.HasErrors() {
		return nil, diags
	}
	for _, t := range db.Tables {
		t.Params = map[string]string{}
		if t.Stor == nil {
			continue
		}
		attrs, diags := t.Stor.Rest.JustAttributes()
		if diags.HasErrors() {
			return nil, diags
		}
		for n, a := range attrs {
			v, diags := a.Expr.Value(nil)
			if diags.HasErrors() {
				return nil, diags
			}
			switch {
			case v.IsNull():
			case v.Type() == cty.Bool:
				t.Params[n] = strconv.FormatBool(v.True())
			case v.Type() == cty.Number:
				t.Params[n] = bigText(v.AsBigFloat())
			case v.Type() == cty.String:
				t.Params[n] = v.AsString()
			default:
				t.Params[n] = "?"
			}
		}
		t.Stor = nil
	}
	return db, nil
}

func bigText(f *big.Float) string {
	x, _ := f.Float64()
	return strconv.FormatFloat(x, 'g', 12, 64)
}

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// expected is the description of the database with columns in the given order.
func (cs *CatSpec) expected(order [][]int) *xDB {
	db := &xDB{Parameters: &xParams{SearchPath: strings.Split(cs.Path, ","), Timezone: cs.Timezone}}
	sn := func(i int) string { return cs.Schemas[i].Name }
	for _, s := range cs.Schemas {
		db.Schemas = append(db.Schemas, &xSch{s.Name, catRoles[s.Owner], deref(s.Comment)})
	}
	for i := range cs.Funcs {
		f := &cs.Funcs[i]
		if cs.visibleFunc(f) {
			db.Functions = append(db.Functions, &xFn{sn(f.Schema), f.Name, catRoles[f.Owner], deref(f.Comment), deref(f.Returns), catLangs[f.Lang], f.Def})
		}
	}
	vis := cs.visibleRels()
	for _, q := range cs.Seqs {
		if !vis[relKey{q.Schema, q.Name}] {
			continue
		}
		x := &xSeq{sn(q.Schema), q.Name, catRoles[q.Owner], deref(q.Comment), seqTypes[q.Type].text, q.Start, q.Min, q.Max, q.Inc, q.Cache, q.Cycle, nil}
		if q.Table >= 0 {
			t := &cs.Tables[q.Table]
			x.OwnedBy = &xOwner{sn(t.Schema), t.Name, t.Cols[q.Col].Name}
		}
		db.Sequences = append(db.Sequences, x)
	}
	for i := range cs.Tables {
		t := &cs.Tables[i]
		if t.Kind != "r" && t.Kind != "p" || !vis[relKey{t.Schema, t.Name}] {
			continue
		}
		x := &xTab{Schema: sn(t.Schema), Name: t.Name, Owner: catRoles[t.Owner], Comment: deref(t.Comment), Params: map[string]string{}}
		for _, j := range order[i] {
			c := t.Cols[j]
			x.Columns = append(x.Columns, &xCol{c.Name, catTypes[c.Type].text, c.NotNull, deref(c.Default), deref(c.Comment)})
		}
		for _, c := range t.Checks {
			x.Checks = append(x.Checks, &xCheck{Name: c.Name, Expression: c.Expr})
		}
		names := func(t *CTable, cols []int) []string {
			var out []string
			for _, c := range cols {
				out = append(out, t.Cols[c].Name)
			}
			return out
		}
		for _, k := range t.FKs {
			rt := &cs.Tables[k.Ref]
			x.FKs = append(x.FKs, &xFK{k.Name, rt.Name, names(t, k.Cols), names(rt, k.RCols), k.Match, k.Del, k.Upd, k.Defer > 0, k.Defer > 0})
		}
		for _, p := range t.Params {
			j := strings.Index(p, "=")
			v := p[j+1:]
			switch strings.ToLower(v) {
			case "on", "yes", "true":
				v = "true"
			case "off", "no", "false":
				v = "false"
			default:
				f, err := strconv.ParseFloat(v, 64)
				if err != nil {
					panic(err)
				}
				v = strconv.FormatFloat(f, 'g', 12, 64)
			}
			x.Params[p[:j]] = v
		}
		db.Tables = append(db.Tables, x)
		for _, d := range t.Idx {
			xi := &xIdx{Schema: sn(t.Schema), Table: t.Name, Name: d.Name, Primary: d.Primary, Unique: d.Unique, Using: d.Using, Where: d.Where}
			for _, k := range d.Keys {
				xk := &xKey{Expression: k.Expr, OpClass: k.Op, Descending: k.Desc}
				if k.Expr == "" {
					xk.Column = t.Cols[k.Col].Name
				}
				xi.Keys = append(xi.Keys, xk)
			}
			db.Indexes = append(db.Indexes, xi)
		}
		for _, g := range t.Trg {
			has := func(e string) bool { return strings.Contains(g.Events, e) }
			xg := &xTrg{Schema: sn(t.Schema), Table: t.Name, Name: g.Name, Function: g.Func, When: g.When, Constraint: g.Cons > 0, Deferrable: g.Cons > 0, InitiallyDeferred: g.Cons == 2, ForEachRow: g.Row, Delete: has("D"), Insert: has("I"), Truncate: has("T"), Update: has("U"), Columns: names(t, g.Cols)}
			db.Triggers = append(db.Triggers, xg)
		}
	}
	return db
}

// entries lists a description's parts as text, by kind.
func (db *xDB) entries(sortedCols bool) map[string][]string {
	m := map[string][]string{}
	add := func(kind string, v any) { m[kind] = append(m[kind], jsonOf(v)) }
	if db.Parameters != nil {
		add("parameters", db.Parameters)
	}
	for _, x := range db.Schemas {
		add("schema", x)
	}
	for _, x := range db.Functions {
		add("function", x)
	}
	for _, x := range db.Sequences {
		add("sequence", x)
	}
	for _, x := range db.Indexes {
		add("index", x)
	}
	for _, x := range db.Triggers {
		y := *x
		if len(y.Columns) == 0 {
			y.Columns = nil
		}
		add("trigger", y)
	}
	for _, t := range db.Tables {
		y := xTab{Schema: t.Schema, Name: t.Name, Owner: t.Owner, Comment: t.Comment}
		add("table", y)
		id := func(v any) any { return []any{t.Schema, t.Name, v} }
		var cols []any
		for _, c := range t.Columns {
			if sortedCols {
				add("column", id(c))
			} else {
				cols = append(cols, c)
			}
		}
		if !sortedCols {
			add("columns in order", id(cols))
		}
		for _, c := range t.Checks {
			add("check", id(c))
		}
		for _, c := range t.FKs {
			add("foreign key", id(c))
		}
		for _, n := range sortedKeys(t.Params) {
			add("storage parameter", id([]string{n, t.Params[n]}))
		}
	}
	for _, l := range m {
		sort.Strings(l)
	}
	return m
}

// diff names the first difference between what is described and what there is.
func (cs *CatSpec) diff(got *xDB, order [][]int, sortedCols bool, odd string) (sig, detail string) {
	return cs.diffDB(cs.expected(order), got, sortedCols, odd)
}

func (cs *CatSpec) diffDB(is, got *xDB, sortedCols bool, odd string) (sig, detail string) {
	want := is.entries(sortedCols)
	have := got.entries(sortedCols)
	kinds := map[string]bool{}
	for k := range want {
		kinds[k] = true
	}
	for k := range have {
		kinds[k] = true
	}
	for _, k := range sortedKeys(kinds) {
		a, b := map[string]int{}, map[string]int{}
		for _, x := range want[k] {
			a[x]++
		}
		for _, x := range have[k] {
			b[x]++
		}
		miss, extra := "", ""
		for _, x := range want[k] {
			if b[x] < a[x] {
				miss = x
				break
			}
		}
		for _, x := range have[k] {
			if a[x] < b[x] {
				extra = x
				break
			}
		}
		if k == odd && k != "storage parameter" { // nobody knows how it is described, if it is
			if len(have[k]) < len(want[k]) {
				return k + " missing", fmt.Sprintf("the database has %d of kind %s, the description %d", len(want[k]), k, len(have[k]))
			}
			continue
		}
		switch {
		case miss != "" && extra != "":
			return k + " wrong", fmt.Sprintf("the database has the %s %s, which the description lacks; it has %s instead", k, clipS(miss), clipS(extra))
		case miss != "":
			return k + " missing", fmt.Sprintf("the database has the %s %s, which the description lacks", k, clipS(miss))
		case extra != "":
			return k + " invented", fmt.Sprintf("the description has the %s %s, which the database does not have", k, clipS(extra))
		}
	}
	return "", ""
}

func clipS(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}
