package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C27: one tree used by many goroutines at once.

func init() {
	reg(&drv.Check{
		ID:    "C27",
		Rule:  "one to three random sources (accepted and rejected ones) are parsed once each, then used by six goroutines at once, each printing, exporting, walking and printing statements in an order of its own while other goroutines parse the same sources; under the race detector, and every answer must be that of a parser used by one goroutine; non-trivial: at least 40 such answers about a tree of 5 statements or more",
		Quick: 1200, Thorough: 30000, CPUs: 4, Shards: 3,
		Assumptions: []string{"interleavings are sampled by the Go scheduler; the race detector reports unsynchronised accesses whatever their order"},
		Gen: func(g *drv.G) *drv.Case {
			c := &drv.Case{}
			for i := 1 + g.N(3); i > 0; i-- {
				if g.P(1, 8) {
					c.Parts = append(c.Parts, drv.Txt(mutated(g, nil)))
					continue
				}
				x := lang.NewGen(g)
				x.Stmts, x.Exprs = min(x.Stmts, 20), min(x.Exprs, 80)
				c.Parts = append(c.Parts, drv.Txt(layout(g, x.Module())))
			}
			for i, n := 0, g.R(4, 12); i < n; i++ {
				c.Ints = append(c.Ints, g.N(1<<10))
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			var as []*ast.AstNode
			var base []*outcome
			stmts := 0
			for _, p := range c.Parts {
				if len(p) > 20000 {
					p = p[:20000]
				}
				a, err := parse(string(p))
				o := outcomeOf(string(p))
				if got := errText(err); got != o.Err {
					return fmt.Errorf("parsing a source twice gives %q and %q", got, o.Err)
				}
				as, base = append(as, a), append(base, o)
				stmts = max(stmts, len(wantOf(&a.ModuleStatement).all))
			}
			rounds := 1
			if os.Getenv("VERIF_ROUNDS") != "" {
				rounds = 100
			}
			const threads = 6
			for r := 0; r < rounds; r++ {
				var wg sync.WaitGroup
				errs := make([]error, threads)
				start := make(chan bool)
				for t := range errs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						e := drv.Safe(func() {
							for i := range c.Ints {
								op := c.Ints[(i+t*5)%len(c.Ints)] + 7*t
								n, k := op/8%len(as), op%8
								if t == threads-1 { // one only parses
									if _, err := parse(string(c.Parts[n])); errText(err) != base[n].Err && len(c.Parts[n]) <= 20000 {
										errs[t] = fmt.Errorf("parsing source %d gives %v, alone %q", n, err, base[n].Err)
									}
									continue
								}
								if got, want := facet(as[n], k), base[n].facet(k); got != want {
									errs[t] = fmt.Errorf("%s of source %d differs when several goroutines use its tree, %s", facetNames[k], n, firstDiff(want, got))
									return
								}
							}
						})
						if e != nil {
							errs[t] = e
						}
					}()
				}
				close(start)
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return err
					}
				}
			}
			for i, a := range as {
				if got := facet(a, 7); got != base[i].Tree {
					return fmt.Errorf("afterwards the tree of source %d is another one, %s", i, treeDiff(base[i].Tree, got))
				}
			}
			n := len(c.Ints) * threads
			x.ClassN("answers", n)
			x.ClassN("trees", len(as))
			if n >= 40 && stmts >= 5 {
				x.NonTrivial(fmt.Sprint(c.Ints, c.Parts))
			}
			return nil
		},
	})
}
