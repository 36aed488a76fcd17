package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"strings"
)

// pkgInit collects what initialises a package's variables, so that a simulated
// run can begin the way a new process does.
type pkgInit struct {
	name  string
	vars  []*initVar
	uses  map[string]map[string]bool // names a function or variable mentions
	inits int
}

type initVar struct {
	names []string
	fn    string // the function that initialises it again
	done  bool
}

// file adds a file, of which text gives a node's text. It returns the text to
// append to the file, and what to insert before the names of its init functions.
func (p *pkgInit) file(fset *token.FileSet, f *ast.File, text func(ast.Node) string) (tail string, renames []ins) {
	p.name = f.Name.Name
	if p.uses == nil {
		p.uses = map[string]map[string]bool{}
	}
	mention := func(name string, n ast.Node) {
		m := p.uses[name]
		if m == nil {
			m = map[string]bool{}
			p.uses[name] = m
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
	}
	var sb strings.Builder
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				// it gets a name, by which an added init function calls it
				pre := fmt.Sprintf("zz_%d_", p.inits)
				renames = append(renames, ins{fset.Position(x.Name.Pos()).Offset, pre})
				fmt.Fprintf(&sb, "\nfunc init() { %sinit() }\n", pre)
				p.inits++
				continue
			}
			mention(x.Name.Name, x)
		case *ast.GenDecl:
			if x.Tok != token.VAR || embeds(x.Doc) {
				continue
			}
			for _, sp := range x.Specs {
				v := sp.(*ast.ValueSpec)
				if embeds(v.Doc) {
					continue
				}
				set := func(names []*ast.Ident, value string, n ast.Node) {
					iv := &initVar{fn: fmt.Sprintf("zz_again%d", len(p.vars))}
					var l []string
					blank := true
					for _, id := range names {
						l = append(l, id.Name)
						if id.Name != "_" {
							blank = false
							iv.names = append(iv.names, id.Name)
							if n != nil {
								mention(id.Name, n)
							}
						}
					}
					if blank {
						return
					}
					p.vars = append(p.vars, iv)
					fmt.Fprintf(&sb, "\nfunc %s() { %s = %s }\n", iv.fn, strings.Join(l, ", "), value)
				}
				switch {
				case len(v.Values) == 0:
					for _, id := range v.Names {
						set([]*ast.Ident{id}, "*new("+text(v.Type)+")", nil)
					}
				case len(v.Values) == len(v.Names):
					for i, id := range v.Names {
						set([]*ast.Ident{id}, text(v.Values[i]), v.Values[i])
					}
				default:
					set(v.Names, text(v.Values[0]), v.Values[0])
				}
			}
		}
	}
	return sb.String(), renames
}

func embeds(c *ast.CommentGroup) bool {
	if c != nil {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}

// register is a file of the package that makes its initialisation known, in
// the order the language defines: a variable follows those it depends on.
func (p *pkgInit) register() string {
	if len(p.vars) == 0 && p.inits == 0 {
		return ""
	}
	owner := map[string]*initVar{}
	for _, v := range p.vars {
		for _, n := range v.names {
			owner[n] = v
		}
	}
	needs := func(v *initVar) (l []*initVar) {
		seen := map[string]bool{}
		var visit func(name string)
		visit = func(name string) {
			for n := range p.uses[name] {
				if seen[n] {
					continue
				}
				seen[n] = true
				if w := owner[n]; w != nil && w != v {
					l = append(l, w)
				}
				visit(n)
			}
		}
		for _, n := range v.names {
			visit(n)
		}
		return l
	}
	deps := map[*initVar][]*initVar{}
	for _, v := range p.vars {
		deps[v] = needs(v)
	}
	ready := func(v *initVar) bool {
		for _, w := range deps[v] {
			if !w.done {
				return false
			}
		}
		return true
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport zzsimrt \"runtime\"\n\nfunc init() {\n\tzzsimrt.SimOnInit(func() {\n", p.name)
	for range p.vars {
		var next *initVar
		for _, v := range p.vars {
			if !v.done && (next == nil || ready(v)) {
				next = v
				if ready(v) {
					break
				}
			}
		}
		next.done = true
		fmt.Fprintf(&sb, "\t\t%s()\n", next.fn)
	}
	for i := 0; i < p.inits; i++ {
		fmt.Fprintf(&sb, "\t\tzz_%d_init()\n", i)
	}
	sb.WriteString("\t})\n}\n")
	return sb.String()
}
