package main

import (
	"fmt"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
)

// C28: parsing again with the same parser.

func init() {
	reg(&drv.Check{
		ID:    "C28",
		Rule:  "a random source, accepted or rejected, is parsed; the parser is then used, and its tree changed or emptied, at random, and Parse is called again, one to three times; every time the error, the tree, the four printed texts, JSON, walk and printed statements must be those of a parser used for nothing else, and the tree taken from the parser before must stay as it was; non-trivial: the source has 3 statements or declarations at least",
		Quick: 20000, Thorough: 500000,
		Gen: func(g *drv.G) *drv.Case {
			c := &drv.Case{Src: genSources(g)[0]}
			if g.P(1, 3) {
				c.Src = drv.Txt(mutated(g, nil))
			}
			for i, n := 0, g.R(1, 8); i < n; i++ {
				c.Ints = append(c.Ints, g.N(1<<12))
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			if len(src) > 20000 {
				src = src[:20000]
			}
			base := outcomeOf(src)
			a, err := parse(src)
			if got := errText(err); got != base.Err {
				return fmt.Errorf("parsing a source with two parsers gives %q and %q", base.Err, got)
			}
			size := len(wantOf(&a.ModuleStatement).all) + len(a.ModuleStatement.GlobalVariables)
			changed := false
			again := func() error {
				old := a.ModuleStatement
				before := Deep(&old)
				if got := errText(a.Parse()); got != base.Err {
					return fmt.Errorf("Parse called again answers %q, the first time %q", got, base.Err)
				}
				for k := range facetNames {
					if got := facet(a, k); got != base.facet(k) {
						return fmt.Errorf("after Parse is called again the %s differs, %s", facetNames[k], firstDiff(base.facet(k), got))
					}
				}
				if after := Deep(&old); after != before {
					return fmt.Errorf("Parse called again changes the tree taken before, %s", treeDiff(before, after))
				}
				x.Class("again")
				changed = false
				return nil
			}
			for _, op := range c.Ints {
				k := op % 16
				switch {
				case k < 7:
					if got := facet(a, k); !changed && got != base.facet(k) {
						return fmt.Errorf("the %s differs after other uses, %s", facetNames[k], firstDiff(base.facet(k), got))
					}
				case k < 11:
					changed = true
					x.Class("changed")
					m := &a.ModuleStatement
					switch op / 16 % 6 {
					case 0:
						m.Body = nil
					case 1:
						m.Body = append(m.Body, ast.BreakStatement{})
					case 2:
						for k := range m.GlobalVariables {
							delete(m.GlobalVariables, k)
							break
						}
					case 3:
						m.Walk(func(_ *ast.FunctionOrProcedure, _, s *ast.Statement) {
							switch v := (*s).(type) {
							case ast.VarStatement:
								v.Name += "1"
								*s = v
							case *ast.IfStatement:
								v.TrueBlock = nil
							}
						})
					case 4:
						for _, s := range m.Body {
							if f, ok := s.(*ast.FunctionOrProcedure); ok {
								f.Name, f.Body = "х", nil
							}
						}
					case 5:
						if len(m.Body) > 0 {
							m.Body[0] = ast.ContinueStatement{}
							m.Body = m.Body[:1]
						}
					}
				default:
					if err := again(); err != nil {
						return err
					}
				}
			}
			if err := again(); err != nil {
				return err
			}
			if base.Err != "" {
				x.Class("rejected")
			}
			if size >= 3 {
				x.NonTrivial(fmt.Sprint(src, c.Ints))
			}
			return nil
		},
	})
}
