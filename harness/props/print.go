package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

func genConf(g *drv.G) []int {
	one := 0
	if g.P(1, 3) {
		one = 1
	}
	if len(lang.DictInts) > 0 && g.P(1, 6) {
		if n, ok := lang.DictSize(g, 300); ok {
			return []int{n, one}
		}
	}
	return []int{drv.Pick(g, []int{0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 8, 8, 11, 17, 100}), one}
}

func confOf(c *drv.Case) ast.PrintConf {
	return ast.PrintConf{Margin: c.Ints[0], OneLine: c.Ints[1] != 0}
}

// loose lets expressions stand as statements in some modules: the parser accepts them.
func loose(x *lang.Gen) { x.Loose = x.P(1, 3) }

func confGen(tune func(x *lang.Gen)) func(g *drv.G) *drv.Case {
	return func(g *drv.G) *drv.Case {
		src, _ := genSource(g, tune)
		return &drv.Case{Src: drv.Txt(src), Ints: genConf(g)}
	}
}

// laidOut checks the multi-line form: every statement and every middle or closing keyword
// starts a line and is indented by its depth.
func laidOut(out string, conf ast.PrintConf) (int, error) {
	toks, le := lang.Lex(out)
	if le != nil {
		return 0, fmt.Errorf("the printed text has a lexical fault: %v", le)
	}
	m, err := lang.ReadToks(toks)
	if err != nil {
		return 0, fmt.Errorf("the printed text cannot be read: %v", err)
	}
	n := 0
	check := func(tok, depth int, what string) error {
		off := toks[tok].Off
		bol := strings.LastIndexByte(out[:off], '\n') + 1
		if got, want := out[bol:off], strings.Repeat(" ", depth*conf.Margin); got != want {
			l, _ := lang.LineCol(out, off)
			return fmt.Errorf("%s at line %d of the printed text (depth %d, margin %d) is preceded by %q", what, l, depth, conf.Margin, got)
		}
		n++
		return nil
	}
	var block func(ss []*lang.Stmt, depth int) error
	block = func(ss []*lang.Stmt, depth int) error {
		for _, s := range ss {
			if err := check(s.Tok, depth, s.Kind.String()); err != nil {
				return err
			}
			for _, b := range append(append([][]*lang.Stmt{}, s.Blocks...), s.Else) {
				if err := block(b, depth+1); err != nil {
					return err
				}
			}
			for _, k := range s.Keys {
				if err := check(k, depth, toks[k].Text); err != nil {
					return err
				}
			}
		}
		return nil
	}
	inside := 0
	for i, t := range toks {
		depth := inside
		switch t.Kind {
		case "proc", "func":
			depth, inside = 0, 1
		case "endproc", "endfunc":
			inside = 0
			continue
		case "var":
		default:
			continue
		}
		if err := check(i, depth, t.Text); err != nil {
			return n, err
		}
	}
	for _, r := range m.Routines {
		if err := block(r.Body, 1); err != nil {
			return n, err
		}
		if err := check(r.EndTok, 0, toks[r.EndTok].Text); err != nil {
			return n, err
		}
	}
	return n, block(m.Body, 0)
}

// oneLine checks that line breaks stand only inside literals and next to directives.
func oneLine(out string) error {
	toks, le := lang.Lex(out)
	if le != nil {
		return fmt.Errorf("the printed text has a lexical fault: %v", le)
	}
	at, prev := 0, ""
	for i := 0; i <= len(toks); i++ {
		end, kind := len(out), ""
		if i < len(toks) {
			end, kind = toks[i].Off, toks[i].Kind
		}
		if strings.ContainsAny(out[at:end], "\r\n") && prev != "dir" && kind != "dir" {
			return fmt.Errorf("one-line printing breaks the line before token %d:\n%s", i, out)
		}
		if i < len(toks) {
			at, prev = toks[i].End, kind
		}
	}
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C13",
		Rule:  "random modules and print configurations; the printed text, read by the independent reader, must be the program of the source (declarations, nesting, grouping, literals, negations); non-trivial: at least 3 statements",
		Quick: 280000, Thorough: 6160000,
		Fixed: both(big("good", 99, "", 4, 0), big("good", 9, "", 0, 1), counted("", 4, 0), counted("", 0, 1)),
		Gen:   confGen(loose),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, err := parse(string(c.Src))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			if err := marksKept(a, m, confOf(c)); err != nil {
				return err
			}
			n := count(m)
			n.classes(x)
			x.Class(fmt.Sprintf("margin %d one-line %d", c.Ints[0], c.Ints[1]))
			if n.stmts >= 3 {
				x.NonTrivial(fmt.Sprint(c.Ints) + string(c.Src))
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C14",
		Rule:  "random modules and print configurations: printed text parses, prints to itself, follows the one-line or indented layout, and every top-level statement printed alone is its piece of the module text; non-trivial: at least 3 statements and a nested block",
		Quick: 250000, Thorough: 5500000,
		Fixed: both(big("good", 99, "", 4, 0), big("good", 9, "", 0, 1), counted("", 4, 0), counted("", 0, 1)),
		Gen:   confGen(loose),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, err := parse(string(c.Src))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			conf := confOf(c)
			out := a.Print(conf)
			b, err := parse(out)
			if err != nil {
				return fmt.Errorf("the printed text is rejected: %v\n%s", err, out)
			}
			if again := b.Print(conf); again != out {
				return fmt.Errorf("printing the printed text gives another text, %s\nprinted:\n%s", firstDiff(out, again), out)
			}
			if conf.OneLine {
				if err := oneLine(out); err != nil {
					return err
				}
			} else {
				k, err := laidOut(out, conf)
				if err != nil {
					return fmt.Errorf("%v\nprinted:\n%s", err, out)
				}
				x.ClassN("lines checked", k)
			}
			body := ""
			alone := 0
			for _, s := range a.ModuleStatement.Body {
				if _, ok := s.(*ast.FunctionOrProcedure); ok {
					continue
				}
				if !conf.OneLine {
					body += "\n"
				}
				t := a.PrintStatementWithConf(s, conf)
				body += t
				alone++
				if d := a.PrintStatement(s); conf.Margin == 4 && !conf.OneLine && d != t {
					return fmt.Errorf("PrintStatement gives\n%s\nand with the same configuration\n%s", d, t)
				}
			}
			if !strings.HasSuffix(out, body) {
				return fmt.Errorf("the statements printed alone are not the end of the printed module:\n%s\nmodule:\n%s", body, out)
			}
			x.ClassN("statements printed alone", alone)
			n := count(m)
			if n.stmts >= 3 && n.depth >= 2 {
				x.NonTrivial(fmt.Sprint(c.Ints) + string(c.Src))
			}
			return nil
		},
	})
}
