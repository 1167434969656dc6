package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

var checks []*drv.Check

func main() {
	lang.LoadDict("/repo")
	drv.Main(checks)
}

func reg(c *drv.Check) { checks = append(checks, c) }

// broken marks an error of the harness itself.
func broken(format string, a ...any) error {
	return fmt.Errorf("%w: %s", drv.Broken, fmt.Sprintf(format, a...))
}

// firstDiff shows the first differing line of two texts.
func firstDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d:\n  want %s\n  got  %s", i+1, a, b)
		}
	}
	return "equal"
}

func parse(src string) (*ast.AstNode, error) {
	a := ast.NewAST(src)
	err := a.Parse()
	return a, err
}

// read reads a generated source with the reference reader; the generator only makes
// sources it accepts.
func read(src string) (*lang.Module, error) {
	m, err := lang.Read(src)
	if err != nil {
		return nil, broken("reference reader rejects the case: %v", err)
	}
	return m, nil
}

// genSource draws a module and a layout. The reference reader must read back exactly the
// generated module: the two are written separately, so this checks the oracle itself.
func genSource(g *drv.G, tune func(*lang.Gen)) (string, *lang.Module) {
	x := lang.NewGen(g)
	if tune != nil {
		tune(x)
	}
	m := x.Module()
	return layout(g, m), m
}

func layout(g *drv.G, m *lang.Module) string {
	toks := lang.ModuleToks(m, g)
	src, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
	selfCheck(m, src)
	return src
}

func selfCheck(m *lang.Module, src string) {
	r, err := lang.Read(src)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: reader rejects generated source: %v\n%s", err, src))
	}
	for _, marks := range []bool{false, true} {
		if a, b := lang.DumpModule(m, marks), lang.DumpModule(r, marks); a != b {
			panic(fmt.Sprintf("HARNESS: reader disagrees with generator: %s\n%s", firstDiff(a, b), src))
		}
	}
}

// structure compares the parsed tree with the reference reading.
func structure(src string) (*ast.AstNode, *lang.Module, error) {
	m, err := read(src)
	if err != nil {
		return nil, nil, err
	}
	a, err := parse(src)
	if err != nil {
		return nil, nil, fmt.Errorf("a well-formed module is rejected: %v", err)
	}
	if want, got := lang.DumpModule(m, false), DumpTree(&a.ModuleStatement); want != got {
		return nil, nil, fmt.Errorf("tree differs from the source, %s", firstDiff(want, got))
	}
	return a, m, nil
}

// ---- counting what a module contains ----

type census struct {
	stmts, exprs, depth, branches, ops, marks, calls, lits, routines, vars, params, empty int
	kinds                                                                                 map[string]int
}

func count(m *lang.Module) *census {
	c := &census{kinds: map[string]int{}}
	c.routines = len(m.Routines)
	for _, v := range m.Vars {
		c.vars += len(v.Names)
	}
	for _, r := range m.Routines {
		c.params += len(r.Params)
		for _, p := range r.Params {
			c.expr(p.Def)
		}
		c.block(r.Body, 1)
	}
	c.block(m.Body, 1)
	return c
}

func (c *census) block(ss []*lang.Stmt, d int) {
	if d > c.depth {
		c.depth = d
	}
	for _, s := range ss {
		c.stmts++
		c.kinds["stmt "+s.Kind.String()]++
		c.expr(s.L)
		c.expr(s.E)
		c.expr(s.E2)
		for _, e := range s.Conds {
			c.expr(e)
		}
		for _, e := range s.Args {
			c.expr(e)
		}
		if len(s.Conds) > 1 {
			c.branches++
		}
		for _, b := range s.Blocks {
			c.block(b, d+1)
		}
		c.block(s.Else, d+1)
	}
}

func (c *census) expr(e *lang.Expr) {
	if e == nil {
		return
	}
	c.exprs++
	c.kinds["expr "+e.Kind.String()]++
	switch e.Kind {
	case lang.Bin:
		c.ops++
	case lang.Neg, lang.Not:
		c.marks++
	case lang.Num, lang.Str, lang.Date, lang.Bool, lang.Undef:
		c.lits++
	}
	c.expr(e.L)
	c.expr(e.R)
	c.expr(e.C)
	for _, a := range e.Args {
		c.expr(a)
	}
	for _, l := range e.Links {
		if l.Call {
			c.calls++
		}
		for _, a := range l.Args {
			c.expr(a)
		}
		for _, a := range l.Idx {
			c.expr(a)
		}
	}
}

func (c *census) classes(x *drv.Ctx) {
	for k, n := range c.kinds {
		x.ClassN(k, n)
	}
}
