package main

import (
	"verif/harness/drv"
)

func init() {
	reg(&drv.Check{
		ID:    "C02",
		Rule:  "random well-formed modules (all statement kinds, nesting, empty statements, free layout) parsed and compared with an independent reader; non-trivial: at least 3 statements and a nested block",
		Quick: 350000, Thorough: 7700000,
		Fixed: both(big("good", 99, ""), counted("")),
		Gen: func(g *drv.G) *drv.Case {
			src, _ := genSource(g, nil)
			return &drv.Case{Src: drv.Txt(src)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			_, m, err := structure(string(c.Src))
			if err != nil {
				return err
			}
			n := count(m)
			n.classes(x)
			if n.stmts >= 3 && n.depth >= 2 {
				x.NonTrivial(string(c.Src))
			}
			return nil
		},
	})
}
