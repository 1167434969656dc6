package main

import (
	"fmt"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// The properties decided by comparing the tree with the independent reading of the source.

func srcGen(tune func(x *lang.Gen)) func(g *drv.G) *drv.Case {
	return func(g *drv.G) *drv.Case {
		src, _ := genSource(g, tune)
		return &drv.Case{Src: drv.Txt(src)}
	}
}

// marksKept compares where НЕ and minus stand in the source and in the printed module.
func marksKept(a *ast.AstNode, m *lang.Module, conf ast.PrintConf) error {
	out := a.Print(conf)
	p, err := lang.Read(out)
	if err != nil {
		return fmt.Errorf("the printed module cannot be read: %v\n%s", err, out)
	}
	if want, got := lang.DumpModule(m, true), lang.DumpModule(p, true); want != got {
		return fmt.Errorf("printed module differs from the source, %s\nprinted:\n%s", firstDiff(want, got), out)
	}
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C03",
		Rule:  "random expressions over every operator, call, chain, index, ternary, constructor and bracket in every position, tree compared with an independent precedence reader; where НЕ and minus apply is read off the printed text; non-trivial: at least 3 binary operators",
		Quick: 400000, Thorough: 8800000,
		Fixed: both(big("good", 99, ""), counted("")),
		Gen: srcGen(func(x *lang.Gen) {
			x.Stmts = x.R(1, 3)
			x.Exprs = x.R(8, 90)
			x.Simple = x.P(2, 3)
		}),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			a, m, err := structure(string(c.Src))
			if err != nil {
				return err
			}
			if err := marksKept(a, m, ast.PrintConf{}); err != nil {
				return err
			}
			n := count(m)
			n.classes(x)
			if n.ops >= 3 {
				x.NonTrivial(string(c.Src))
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C04",
		Rule:  "random modules dense with НЕ and unary minus on every operand kind and position, printed and read back by the independent reader; non-trivial: at least 2 marks",
		Quick: 450000, Thorough: 9900000,
		Fixed: both(big("good", 9, ""), counted("")),
		Gen: srcGen(func(x *lang.Gen) {
			x.Stmts = x.R(1, 4)
			x.Exprs = x.R(6, 60)
			x.Marks = 3
			x.Simple = x.P(2, 3)
		}),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, err := parse(string(c.Src))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			if err := marksKept(a, m, ast.PrintConf{Margin: 1}); err != nil {
				return err
			}
			n := count(m)
			lang.AllExprs(m, func(e *lang.Expr) {
				if e.Kind == lang.Neg || e.Kind == lang.Not {
					x.Class(e.Kind.String() + " on " + e.L.Kind.String())
				}
			})
			if n.marks >= 2 {
				x.NonTrivial(string(c.Src))
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C05",
		Rule:  "random modules dense with literals in every spelling and position; values compared with the independent scanner's; non-trivial: at least 3 literals of at least 2 kinds",
		Quick: 450000, Thorough: 9900000,
		Fixed: both(big("good", 99, ""), counted("")),
		Gen: srcGen(func(x *lang.Gen) {
			x.Stmts = x.R(1, 4)
			x.Exprs = x.R(6, 40)
			x.Lits = true
			x.Simple = true
		}),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			_, m, err := structure(string(c.Src))
			if err != nil {
				return err
			}
			n := count(m)
			n.classes(x)
			kinds := 0
			for _, k := range []string{"num", "str", "date", "bool", "undef"} {
				if n.kinds["expr "+k] > 0 {
					kinds++
				}
			}
			if n.lits >= 3 && kinds >= 2 {
				x.NonTrivial(string(c.Src))
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C06",
		Rule:  "random sequences of variable declarations, procedures and functions with any modifiers, parameters, defaults and locals, compared with the independent reading; non-trivial: at least 2 routines and 2 parameters",
		Quick: 350000, Thorough: 7700000,
		Fixed: both(big("good", 99, ""), counted("")),
		Gen: srcGen(func(x *lang.Gen) {
			x.Stmts = x.R(1, 5)
			x.Exprs = x.R(3, 14)
			x.Decls = true
		}),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			_, m, err := structure(string(c.Src))
			if err != nil {
				return err
			}
			n := count(m)
			for _, r := range m.Routines {
				x.Class(fmt.Sprintf("fn=%v dir=%v export=%v locals=%v", r.Fn, r.Dir != "", r.Export, len(r.Locals) > 0))
				for _, p := range r.Params {
					x.Class(fmt.Sprintf("param val=%v default=%v", p.ByVal, p.Def != nil))
				}
			}
			if n.routines >= 2 && n.params >= 2 {
				x.NonTrivial(string(c.Src))
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C08",
		Rule:  "random modules with reserved words as members and near-keyword identifiers, names compared letter for letter; or the same with one plain name replaced by a reserved word, which must be rejected when the grammar has no keyword there; non-trivial: a reserved word as a member, or a replaced name",
		Quick: 400000, Thorough: 8800000,
		Fixed: both(big("good", 99, "legal"), counted("legal")),
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Stmts = g.R(1, 5)
			x.Exprs = g.R(4, 40)
			x.Members = true
			m := x.Module()
			if g.P(2, 3) {
				return &drv.Case{Kind: "legal", Src: drv.Txt(layout(g, m))}
			}
			toks := lang.ModuleToks(m, g)
			var at []int
			for i, t := range toks {
				if t.Kind == "id" && (i == 0 || toks[i-1].Kind != ".") {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				return nil
			}
			toks[drv.Pick(g, at)] = lang.TokOf(g, drv.Pick(g, lang.KwList))
			src, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
			return &drv.Case{Kind: "keyword as a name", Src: drv.Txt(src)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			x.Class(c.Kind)
			if c.Kind == "legal" {
				_, m, err := structure(src)
				if err != nil {
					return err
				}
				words := 0
				lang.AllExprs(m, func(e *lang.Expr) {
					for i, l := range e.Links {
						if _, ok := lang.Keywords[lang.Lower(l.Name)]; ok && i > 0 {
							words++
							x.Class("member " + lang.Lower(l.Name))
						}
					}
				})
				if words > 0 {
					x.NonTrivial(src)
				}
				return nil
			}
			toks, le := lang.Lex(src)
			if le != nil {
				return broken("lexical fault in a generated text: %v", le)
			}
			if ok, _ := lang.Recognise(lang.Kinds(toks)); ok {
				x.Class("still a module")
				return nil
			}
			x.NonTrivial(src)
			if _, err := parse(src); err == nil {
				return fmt.Errorf("a reserved word is accepted as a name")
			}
			return nil
		},
	})
}
