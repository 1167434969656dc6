package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C24: any node of a tree, printed alone, reads back as the piece of the source it stands for.

// apart pairs the nodes of a tree with the pieces of the source and prints each one alone.
type apart struct {
	a     *ast.AstNode
	conf  ast.PrintConf
	every int // one node in so many is printed
	at    int
	bytes int // printed so far
	kinds map[string]int
	err   error
	hook  func(node any, e *lang.Expr) // called in place of printing
}

func (p *apart) fail(format string, args ...any) {
	if p.err == nil {
		p.err = fmt.Errorf(format, args...)
	}
}

func (p *apart) due() bool {
	p.at++
	return p.hook == nil && p.err == nil && p.at%p.every == 0
}

// print prints a node; the text of all nodes grows with the depth, so deep modules are
// sampled more and more thinly.
func (p *apart) print(node any) string {
	by := p.a
	if p.at%4 == 1 { // any parser may be asked
		by = &ast.AstNode{}
	}
	t := ""
	if p.at%5 == 2 {
		t = by.PrintStatement(node)
	} else {
		t = by.PrintStatementWithConf(node, p.conf)
	}
	for p.bytes += len(t); p.bytes > 100_000*p.every; {
		p.every *= 2
	}
	return t
}

// wrap is a place where every statement may stand.
func wrap(text string) string {
	return "Функция ф() Пока у Цикл Попытка Исключение\n" + text + "\nКонецПопытки; КонецЦикла; КонецФункции"
}

func unwrap(text string) ([]*lang.Stmt, error) {
	m, err := lang.Read(wrap(text))
	if err != nil {
		return nil, err
	}
	if len(m.Routines) != 1 || len(m.Body) > 0 || len(m.Vars) > 0 || len(m.Routines[0].Body) != 1 {
		return nil, fmt.Errorf("not one statement")
	}
	w := m.Routines[0].Body[0]
	if w.Kind != lang.While || len(w.Blocks[0]) != 1 || w.Blocks[0][0].Kind != lang.Try {
		return nil, fmt.Errorf("not one statement")
	}
	t := w.Blocks[0][0]
	if len(t.Blocks[0]) != 0 || len(t.Blocks[1]) != 1 {
		return nil, fmt.Errorf("not one statement")
	}
	return t.Blocks[1], nil
}

func (p *apart) stmt(node any, s *lang.Stmt) {
	if !p.due() {
		return
	}
	text := p.print(node)
	want := lang.DumpStmts([]*lang.Stmt{s}, true)
	got, err := unwrap(text)
	if err != nil {
		p.fail("the statement\n%sprinted alone gives a text that cannot be read as a statement (%v):\n%s", want, err, text)
	} else if d := lang.DumpStmts(got, true); d != want {
		p.fail("a statement printed alone is not the statement of the source, %s\nprinted:\n%s", firstDiff(want, d), text)
	}
	p.kinds["stmt "+s.Kind.String()]++
}

// reads tells what an expression printed alone is.
func reads(text string) (string, error) {
	t := strings.TrimRight(text, " \n")
	t = strings.TrimSuffix(t, ";")
	ss, err := unwrap("х =\n" + t + "\n;")
	if err != nil {
		return "", err
	}
	if ss[0].Kind != lang.Assign || lang.DumpExpr(ss[0].L, true) != "х" {
		return "", fmt.Errorf("not one expression")
	}
	return lang.DumpExpr(ss[0].E, true), nil
}

// expr checks that a node printed alone is one of the given pieces.
func (p *apart) expr(node any, es ...*lang.Expr) {
	if p.hook != nil && len(es) == 1 {
		p.hook(node, es[0])
	}
	if !p.due() {
		return
	}
	text := p.print(node)
	got, err := reads(text)
	want := lang.DumpExpr(es[0], true)
	if err != nil {
		p.fail("the expression %s printed alone gives a text that cannot be read as an expression (%v):\n%s", want, err, text)
		return
	}
	for _, e := range es {
		if lang.DumpExpr(e, true) == got {
			p.kinds["expr "+e.Kind.String()]++
			return
		}
	}
	p.fail("the expression %s printed alone gives\n%s\nwhich is %s", want, text, got)
}

// layers are an expression and what stands in it under marks and parentheses.
func layers(e *lang.Expr) []*lang.Expr {
	out := []*lang.Expr{e}
	for {
		switch {
		case e.Kind == lang.Plus || e.Kind == lang.Neg || e.Kind == lang.Not || e.Kind == lang.Paren && len(e.Args) == 0:
			e = e.L
		default:
			return out
		}
		out = append(out, e)
	}
}

func several(e *lang.Expr) bool { return e.Kind == lang.Paren && len(e.Args) > 0 }

func (p *apart) pair(node any, e *lang.Expr) {
	if p.err != nil {
		return
	}
	ls := layers(e)
	core := ls[len(ls)-1]
	if several(core) {
		return
	}
	p.expr(node, e)
	for {
		v, ok := deref(node).(ast.ExprStatements)
		if !ok || len(v.Statements) != 1 {
			break
		}
		node = v.Statements[0]
		p.expr(node, ls...)
	}
	p.inside(node, core, len(ls) > 1)
}

func (p *apart) list(ss ast.Statements, es []*lang.Expr) {
	if len(ss) != len(es) {
		if len(es) == 0 && (len(ss) == 1 && deref(ss[0]) == nil) {
			return
		}
		p.fail("%d values in the tree, %d in the source", len(ss), len(es))
		return
	}
	for i := range ss {
		if ss[i] != nil && es[i] != nil {
			p.pair(ss[i], es[i])
		}
	}
}

// inside goes into the parts of an expression.
func (p *apart) inside(node any, e *lang.Expr, marked bool) {
	bad := func(ok bool) {
		if !ok {
			p.fail("a node of type %T stands for %s", node, lang.DumpExpr(e, true))
		}
	}
	switch e.Kind {
	case lang.Bin:
		v, ok := deref(node).(ast.ExpStatement)
		if bad(ok); ok {
			p.pair(v.Left, e.L)
			p.pair(v.Right, e.R)
		}
	case lang.Tern:
		v, ok := deref(node).(ast.TernaryStatement)
		if bad(ok); ok {
			p.pair(v.Expression, e.C)
			p.pair(v.TrueBlock, e.L)
			p.pair(v.ElseBlock, e.R)
		}
	case lang.New:
		v, ok := deref(node).(ast.NewObjectStatement)
		if bad(ok); ok {
			p.list(v.Param.Statements, e.Args)
		}
	case lang.Chain:
		p.chain(node, e.Links, marked, true)
	}
}

// chain goes into the parts of a chain; first tells that the node is a whole expression.
func (p *apart) chain(node any, ls []lang.Link, marked, first bool) {
	if p.err != nil {
		return
	}
	part := func(n any, ls []lang.Link, member bool) {
		if e := (&lang.Expr{Kind: lang.Chain, Links: ls}); !member {
			es := []*lang.Expr{e}
			if marked {
				es = append(es, &lang.Expr{Kind: lang.Neg, L: e}, &lang.Expr{Kind: lang.Not, L: e})
			}
			p.expr(n, es...)
		}
		p.chain(n, ls, marked, !member)
	}
	last := ls[len(ls)-1]
	switch v := deref(node).(type) {
	case ast.CallChainStatement:
		if len(ls) < 2 {
			p.fail("a dotted chain stands for the plain name %s", last.Name)
			return
		}
		part(v.Call, ls[:len(ls)-1], false)
		part(v.Unit, ls[len(ls)-1:], true)
	case ast.ItemStatement:
		n := len(last.Idx)
		if n == 0 {
			p.fail("an indexed node stands for %s, which has no index", last.Name)
			return
		}
		p.pair(v.Item, last.Idx[n-1])
		l := last
		l.Idx = last.Idx[: n-1 : n-1]
		part(v.Object, append(ls[:len(ls)-1:len(ls)-1], l), !first)
	case ast.MethodStatement:
		if last.Call {
			p.list(v.Param.Statements, last.Args)
		}
	}
}

func (p *apart) block(ss ast.Statements, ms []*lang.Stmt) {
	if p.err != nil {
		return
	}
	if len(ss) != len(ms) {
		p.fail("a block has %d statements in the tree and %d in the source", len(ss), len(ms))
		return
	}
	for i, s := range ss {
		p.statement(s, ms[i])
	}
}

func (p *apart) statement(node any, s *lang.Stmt) {
	if p.err != nil {
		return
	}
	p.stmt(node, s)
	bad := func() { p.fail("a node of type %T stands for a statement %s", node, s.Kind) }
	switch v := deref(node).(type) {
	case ast.AssignmentStatement:
		if s.Kind != lang.Assign {
			bad()
			return
		}
		p.pair(v.Var, s.L)
		p.pair(v.Expr, s.E)
	case ast.IfStatement:
		if s.Kind != lang.If || len(v.IfElseBlock) != len(s.Conds)-1 {
			bad()
			return
		}
		p.pair(v.Expression, s.Conds[0])
		p.block(v.TrueBlock, s.Blocks[0])
		for i, e := range v.IfElseBlock {
			ei, ok := deref(e).(ast.IfStatement)
			if !ok {
				bad()
				return
			}
			// a branch printed alone is an if of its own
			p.stmt(e, &lang.Stmt{Kind: lang.If, Conds: s.Conds[i+1 : i+2], Blocks: s.Blocks[i+1 : i+2]})
			p.pair(ei.Expression, s.Conds[i+1])
			p.block(ei.TrueBlock, s.Blocks[i+1])
		}
		p.block(v.ElseBlock, s.Else)
	case ast.LoopStatement:
		switch s.Kind {
		case lang.ForEach:
			p.pair(v.In, s.E)
		case lang.For:
			head, ok := deref(v.For).(ast.ExpStatement)
			if !ok {
				bad()
				return
			}
			p.stmt(v.For, &lang.Stmt{Kind: lang.Assign, L: &lang.Expr{Kind: lang.Chain, Links: []lang.Link{{Name: s.Name}}}, E: s.E})
			p.pair(head.Right, s.E)
			p.pair(v.To, s.E2)
		case lang.While:
			p.pair(v.WhileExpr, s.E)
		default:
			bad()
			return
		}
		p.block(v.Body, s.Blocks[0])
	case ast.TryStatement:
		if s.Kind != lang.Try {
			bad()
			return
		}
		p.block(v.Body, s.Blocks[0])
		p.block(v.Catch, s.Blocks[1])
	case ast.ThrowStatement:
		if s.Kind != lang.Throw {
			bad()
			return
		}
		if len(s.Args) == 1 && s.Args[0] != nil && v.Param != nil {
			p.pair(v.Param, s.Args[0])
		} else if t, ok := deref(v.Param).(ast.ExprStatements); ok {
			p.list(t.Statements, s.Args)
		}
	case ast.ReturnStatement:
		if s.Kind != lang.Return {
			bad()
			return
		}
		if s.E != nil {
			p.pair(v.Param, s.E)
		}
	default:
		switch s.Kind {
		case lang.CallSt:
			p.pair(node, s.E)
		case lang.Exec:
			if m, ok := v.(ast.MethodStatement); ok {
				p.list(m.Param.Statements, []*lang.Expr{s.E})
			}
		}
	}
}

func (p *apart) routine(node any, r *lang.Routine) {
	v, ok := deref(node).(ast.FunctionOrProcedure)
	if !ok {
		p.fail("a node of type %T stands for the routine %s", node, r.Name)
		return
	}
	if p.hook == nil {
		p.wholeRoutine(node, r)
	}
	if len(v.Params) != len(r.Params) {
		p.fail("%d parameters in the tree, %d in the source", len(v.Params), len(r.Params))
		return
	}
	for i, q := range v.Params {
		if r.Params[i].Def != nil && q.Default != nil {
			p.pair(q.Default, r.Params[i].Def)
		}
	}
	p.block(v.Body, r.Body)
}

func (p *apart) wholeRoutine(node any, r *lang.Routine) {
	want := lang.DumpModule(&lang.Module{Routines: []*lang.Routine{r}}, true)
	text := p.print(node)
	if got, err := lang.Read(text); err != nil {
		p.fail("the routine %s printed alone gives a text that cannot be read (%v):\n%s", r.Name, err, text)
	} else if d := lang.DumpModule(got, true); d != want {
		p.fail("a routine printed alone is not the routine of the source, %s\nprinted:\n%s", firstDiff(want, d), text)
	}
	p.kinds["routine"]++
}

// module goes through a whole module.
func (p *apart) module(m *lang.Module) error {
	body := p.a.ModuleStatement.Body
	if len(body) != len(m.Routines)+len(m.Body) {
		return fmt.Errorf("%d nodes at the top level, %d in the source", len(body), len(m.Routines)+len(m.Body))
	}
	for i, r := range m.Routines {
		p.routine(body[i], r)
	}
	p.block(body[len(m.Routines):], m.Body)
	return p.err
}

func init() {
	reg(&drv.Check{
		ID:    "C24",
		Rule:  "every routine and a share of the other nodes of a random module (statements of nested blocks, branches, conditions, bounds, assigned and returned values, operands, arguments, indexes, parts of chains) printed alone under a random configuration; the text, read by the independent reader, must be the piece of the source at that place, marks included; non-trivial: at least 10 nodes below the top level printed",
		Quick: 120000, Thorough: 2600000,
		Gen: func(g *drv.G) *drv.Case {
			src, _ := genSource(g, loose)
			return &drv.Case{Src: drv.Txt(src), Ints: append(genConf(g), drv.Pick(g, []int{1, 1, 2, 3, 7}), g.N(7))}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, err := parse(string(c.Src))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			var none *ast.AstNode
			if t := a.PrintStatement(nil) + a.PrintStatementWithConf(nil, confOf(c)) + none.Print(confOf(c)); t != "" {
				return fmt.Errorf("no node and no tree print as %q", t)
			}
			p := &apart{a: a, conf: confOf(c), every: c.Ints[2], at: c.Ints[3], kinds: map[string]int{}}
			if err := p.module(m); err != nil {
				return err
			}
			n := 0
			for k, v := range p.kinds {
				x.ClassN(k, v)
				n += v
			}
			if n >= 10 {
				x.NonTrivial(fmt.Sprint(c.Ints) + string(c.Src))
			}
			return nil
		},
	})
}
