package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C26: the methods of the nodes.

func negated(e *lang.Expr, kinds ...lang.ExprKind) string {
	for _, k := range kinds {
		e = &lang.Expr{Kind: k, L: e}
	}
	return lang.DumpExpr(e, true)
}

// node checks the methods of one node that stands for e.
func methods(a *ast.AstNode, conf ast.PrintConf, node any, e *lang.Expr, kinds map[string]int) error {
	name := lang.DumpExpr(e, true)
	switch v := deref(node).(type) {
	case ast.CallChainStatement:
		if e.Kind == lang.Chain {
			if l := e.Links[len(e.Links)-1]; len(l.Idx) == 0 {
				kinds["IsMethod"]++
				if got := v.IsMethod(); got != l.Call {
					return fmt.Errorf("IsMethod of %s is %v", name, got)
				}
			}
		}
	case ast.ExpStatement:
		if e.Kind == lang.Bin {
			kinds["operation"]++
			if got := v.Operation.String(); got != e.Text {
				return fmt.Errorf("the operation of %s calls itself %q", name, got)
			}
		}
	case ast.MethodStatement:
		kinds["Params"]++
		if got, want := dumpArgs(v.Params().Statements), dumpArgs(v.Param.Statements); got != want {
			return fmt.Errorf("Params of %s are %s", name, got)
		}
	case ast.NewObjectStatement:
		kinds["Params"]++
		if got, want := dumpArgs(v.Params().Statements), dumpArgs(v.Param.Statements); got != want {
			return fmt.Errorf("Params of %s are %s", name, got)
		}
	}
	if e.Kind == lang.Neg || e.Kind == lang.Not || e.Kind == lang.Plus {
		return nil
	}
	// a binary node is marked in place
	fresh := func() any {
		if p, ok := node.(*ast.ExpStatement); ok {
			c := *p
			return &c
		}
		return node
	}
	was := DeepCut(node, 4000)
	check := func(what string, n any, want string) error {
		text := a.PrintStatementWithConf(n, conf)
		got, err := reads(text)
		if err != nil {
			return fmt.Errorf("%s of %s gives a node that prints as a text which is no expression (%v):\n%s", what, name, err, text)
		}
		if got != want {
			return fmt.Errorf("%s of %s gives a node that prints as\n%s\nwhich is %s in place of %s", what, name, text, got, want)
		}
		if now := DeepCut(node, 4000); now != was {
			return fmt.Errorf("%s of %s changes the node itself:\n%s\n%s", what, name, was, now)
		}
		kinds[what]++
		kinds[what+" "+strings.TrimPrefix(fmt.Sprintf("%T", node), "*")]++
		return nil
	}
	if n, ok := fresh().(ast.INot); ok {
		if err := check("Not", n.Not(), negated(e, lang.Not)); err != nil {
			return err
		}
	}
	if n, ok := fresh().(ast.IUnary); ok {
		m := n.UnaryMinus()
		if err := check("UnaryMinus", m, negated(e, lang.Neg)); err != nil {
			return err
		}
		if k, ok := m.(ast.INot); ok {
			if err := check("Not after UnaryMinus", k.Not(), negated(e, lang.Neg, lang.Not)); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C26",
		Rule:  "every unmarked operand, argument, condition and value of a random module: what Not, UnaryMinus and both give, printed alone and read by the independent reader, must be the negation of that piece of the source, the node itself staying as it was (a copy of a binary node is marked); IsMethod, Params and the operation's name must agree with the source; non-trivial: at least 10 marks made",
		Quick: 100000, Thorough: 2200000,
		Gen: func(g *drv.G) *drv.Case {
			src, _ := genSource(g, nil)
			return &drv.Case{Src: drv.Txt(src), Ints: genConf(g)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, err := parse(string(c.Src))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			kinds := map[string]int{}
			conf := confOf(c)
			left := 400
			p := &apart{a: a, every: 1, kinds: kinds}
			p.hook = func(node any, e *lang.Expr) {
				if p.err == nil && left > 0 {
					left--
					p.err = methods(a, conf, node, e, kinds)
				}
			}
			if err := p.module(m); err != nil {
				return err
			}
			for k, v := range kinds {
				x.ClassN(k, v)
			}
			if kinds["Not"]+kinds["UnaryMinus"] >= 10 {
				x.NonTrivial(fmt.Sprint(c.Ints) + string(c.Src))
			}
			return nil
		},
	})
}
